// Stand-in for the interface of the optional training library (not available
// offline): only what the code of the repository derives from.
#pragma once
#include <Eigen/Core>

namespace train {
using Vect = Eigen::VectorXd;

class ParametersAware {
public:
  virtual ~ParametersAware() = default;
  virtual Vect getParameters() const = 0;
  virtual void setParameters(const Vect &) = 0;
  virtual Vect getGradient() const = 0;
};
} // namespace train
