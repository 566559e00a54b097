// Declarations-only stand-in of the XML-Parser library (absent in the
// sandbox): enough to let the xml importer/exporter be parsed and analysed.
#pragma once
#include <memory>
#include <ostream>
#include <string>
#include <unordered_map>
#include <variant>
namespace xmlPrs {
using Name = std::string;
class Tag;
using TagPtr = std::unique_ptr<Tag>;
class Tag {
public:
  using Attributes = std::unordered_multimap<Name, std::string>;
  using Nested = std::unordered_multimap<Name, TagPtr>;
  Attributes &getAttributes();
  const Attributes &getAttributes() const;
  Nested &getNested();
  const Nested &getNested() const;
  Tag &addNested(const Name &name);
  Tag &operator[](const Name &name);
  void print(std::ostream &out) const;
};
class Root : public Tag {
public:
  Root(const Name &name);
};
class Error : public std::exception {
public:
  Error(const std::string &what);
};
} // namespace xmlPrs
