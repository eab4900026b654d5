#pragma once
#include "absl/hash/hash.h"
#include <initializer_list>
namespace absl {
template <typename C> bool VerifyTypeImplementsAbslHashCorrectly(const C& c) {
  for (const auto& a : c) for (const auto& b : c) if (a == b && HashOf(a) != HashOf(b)) return false;
  return true;
}
template <typename T> bool VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> c) {
  for (const auto& a : c) for (const auto& b : c) if (a == b && HashOf(a) != HashOf(b)) return false;
  return true;
}
}
