// Declarations-only stand-in of the TrainingTools library.
#pragma once
#include <cstddef>
namespace Eigen {
using Index = std::ptrdiff_t;
}
namespace train {
class Vect {
public:
  explicit Vect(std::size_t size);
  Vect(const Vect &);
  double &operator()(Eigen::Index k);
  const double &operator()(Eigen::Index k) const;
  Eigen::Index size() const;
  Vect operator-() const;
};
class ParametersAware {
public:
  virtual ~ParametersAware() = default;
  virtual Vect getParameters() const = 0;
  virtual void setParameters(const Vect &) = 0;
  virtual Vect getGradient() const = 0;
};
} // namespace train
