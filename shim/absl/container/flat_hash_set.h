#pragma once
#include <unordered_set>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename H = Hash<K>, typename E = std::equal_to<K>>
class flat_hash_set : public std::unordered_set<K, H, E> {
 public:
  using Base = std::unordered_set<K, H, E>;
  using Base::Base;
  flat_hash_set() = default;
};
template <typename K, typename H = Hash<K>, typename E = std::equal_to<K>> using node_hash_set = flat_hash_set<K, H, E>;
}
