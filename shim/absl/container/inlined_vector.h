#pragma once
#include <initializer_list>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>
namespace absl {
// Contiguous growable array. Elements always live on the heap (no small-buffer storage), so that
// AddressSanitizer sees the exact bounds; but as with small-buffer storage, moving the array moves
// up to N elements to a new place.
template <typename T, size_t N, typename A = std::allocator<T>>
class InlinedVector : public std::vector<T, A> {
 public:
  using Base = std::vector<T, A>;
  using Base::Base;
  InlinedVector() = default;
  InlinedVector(const InlinedVector&) = default;
  InlinedVector& operator=(const InlinedVector&) = default;
  InlinedVector(InlinedVector&& o) noexcept { Take(o); }
  InlinedVector& operator=(InlinedVector&& o) noexcept {
    if (this == &o) return *this;
    Base().swap(*this);
    Take(o);
    return *this;
  }
  InlinedVector(std::initializer_list<T> l) : Base(l) {}
  InlinedVector& operator=(std::initializer_list<T> l) { Base::operator=(l); return *this; }
  template <typename H> friend H AbslHashValue(H h, const InlinedVector& v) { for (const auto& x : v) h = H::combine(std::move(h), x); return H::combine(std::move(h), v.size()); }

 private:
  void Take(InlinedVector& o) {
    if (o.size() > N) {
      Base::swap(o);
    } else {
      Base::reserve(o.size());
      for (T& x : o) Base::push_back(std::move(x));
      Base().swap(o);
    }
  }
};
}  // namespace absl
