#pragma once
#include "ParametersAware.h"
namespace train {
class Trainer {
public:
  void train(ParametersAware &model);
};
} // namespace train
