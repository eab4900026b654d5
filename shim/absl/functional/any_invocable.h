#pragma once
#include <functional>
namespace absl { template <typename F> using AnyInvocable = std::function<F>; }
