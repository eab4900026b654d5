#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
#include "absl/log/absl_check.h"
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&;
  using iterator = T*; using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_t npos = ~size_t(0);
  constexpr Span() = default;
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <typename V>
    requires(!std::is_same_v<std::remove_cvref_t<V>, Span> && !std::is_array_v<V> && std::is_const_v<T> &&
             requires(const V& v) { { std::data(v) } -> std::convertible_to<T*>; std::size(v); } &&
             std::is_same_v<std::remove_cv_t<std::remove_pointer_t<decltype(std::data(std::declval<const V&>()))>>, std::remove_cv_t<T>>)
  constexpr Span(const V& v) : p_(std::data(v)), n_(std::size(v)) {}
  template <typename V>
    requires(!std::is_same_v<std::remove_cvref_t<V>, Span> && !std::is_array_v<V> && !std::is_const_v<T> &&
             requires(V& v) { { std::data(v) } -> std::convertible_to<T*>; std::size(v); } &&
             std::is_same_v<std::remove_pointer_t<decltype(std::data(std::declval<V&>()))>, T>)
  constexpr explicit Span(V& v) : p_(std::data(v)), n_(std::size(v)) {}
  template <typename U = T>
    requires(std::is_const_v<U>)
  constexpr Span(std::initializer_list<std::remove_cv_t<T>> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { if (!(i < n_)) shim::Die("Span index out of bounds"); return p_[i]; }
  constexpr T& at(size_t i) const { return (*this)[i]; }
  constexpr T& front() const { return (*this)[0]; }
  constexpr T& back() const { return (*this)[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const { return reverse_iterator(begin()); }
  void remove_prefix(size_t n) { if (n > n_) shim::Die("Span::remove_prefix"); p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { if (n > n_) shim::Die("Span::remove_suffix"); n_ -= n; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const { if (pos > n_) shim::Die("Span::subspan pos > size"); return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t n) const { if (n > n_) shim::Die("Span::first"); return Span(p_, n); }
  constexpr Span last(size_t n) const { if (n > n_) shim::Die("Span::last"); return Span(p_ + n_ - n, n); }
  friend bool operator==(Span a, Span b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
  template <typename H> friend H AbslHashValue(H h, Span v) { for (const auto& x : v) h = H::combine(std::move(h), x); return H::combine(std::move(h), v.size()); }
 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
template <typename T> bool operator==(Span<const T> a, Span<T> b) requires(!std::is_const_v<T>) { return a == Span<const T>(b.data(), b.size()); }
template <typename T, typename V> requires(!std::is_same_v<V, Span<T>> && requires(const V& v, const T& t) { std::data(v); std::size(v); *std::data(v) == t; })
bool operator==(Span<T> a, const V& b) { return std::equal(a.begin(), a.end(), std::data(b), std::data(b) + std::size(b)); }
template <typename T> constexpr Span<T> MakeSpan(T* p, size_t n) { return {p, n}; }
template <typename T> Span<T> MakeSpan(T* b, T* e) { return {b, size_t(e - b)}; }
template <typename C> constexpr auto MakeSpan(C& c) { return Span<std::remove_reference_t<decltype(*std::data(c))>>(std::data(c), std::size(c)); }
template <typename T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return {p, n}; }
template <typename T> Span<const T> MakeConstSpan(T* b, T* e) { return {b, size_t(e - b)}; }
template <typename C> constexpr auto MakeConstSpan(const C& c) { return Span<const std::remove_cvref_t<decltype(*std::data(c))>>(std::data(c), std::size(c)); }
}  // namespace absl
template <typename T> inline constexpr bool std::ranges::enable_borrowed_range<absl::Span<T>> = true;
template <typename T> inline constexpr bool std::ranges::enable_view<absl::Span<T>> = true;
