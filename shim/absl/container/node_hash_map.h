#pragma once
#include <unordered_map>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
 public:
  using Base = std::unordered_map<K, V, H, E>;
  using Base::Base;
  flat_hash_map() = default;
  bool contains(const K& k) const { return Base::count(k) != 0; }
};
template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<K>> using node_hash_map = flat_hash_map<K, V, H, E>;
}
