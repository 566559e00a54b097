// Instantiates the templates of the public headers so that their bodies are
// part of the analysed program. Only parsed, never compiled nor run.
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <EasyFactorGraph/io/xml/Exporter.h>
#include <EasyFactorGraph/io/xml/Importer.h>
#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>
using namespace EFG;
void efg_verif_driver(model::Graph &g, model::RandomField &r,
                      const std::filesystem::path &p) {
  r.absorbTunableFactors(r.getTunableFactors().begin(),
                         r.getTunableFactors().end(), true);
  g.absorbConstFactors(g.getConstFactors().begin(), g.getConstFactors().end(),
                       true);
  io::json::Importer::importFromFile(r, p);
  io::json::Importer::importFromFile(g, p);
  io::json::Exporter::exportToFile(r, p);
  io::json::Exporter::exportToFile(g, p);
  io::xml::Importer::importFromFile(r, p);
  io::xml::Importer::importFromFile(g, p);
  io::xml::Exporter::exportToFile(r, io::xml::ExportInfo{});
  io::xml::Exporter::exportToString(g, "m");
  auto a = categoric::make_variable(2, "a");
  categoric::Group grp{a, a, a};
  g.getMarginalDistribution(a);
  g.getMAP(a);
  factor::Factor f{grp};
  factor::Factor::merge(f, f, f);
}
