#pragma once
#include "absl/container/inlined_vector.h"
namespace absl { template <typename T, size_t N = 0> using FixedArray = InlinedVector<T, N>; }
