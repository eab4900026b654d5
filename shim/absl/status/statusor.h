#pragma once
#include <optional>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/log/absl_check.h"
#include "absl/status/status.h"
namespace absl {
template <typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : s_(s) { ABSL_CHECK(!s_.ok()); }
  StatusOr(Status&& s) : s_(std::move(s)) { ABSL_CHECK(!s_.ok()); }
  template <typename U>
    requires(!std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && std::is_constructible_v<T, U &&> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  StatusOr(const T& v) : v_(v) {}
  StatusOr(T&& v) : v_(std::move(v)) {}
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <typename U>
    requires(!std::is_same_v<U, T> && std::is_convertible_v<const U&, T>)
  StatusOr(const StatusOr<U>& o) : s_(o.status()) { if (o.ok()) v_.emplace(*o); }
  bool ok() const { return v_.has_value(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_; }
  T& value() & { Need(); return *v_; }
  const T& value() const& { Need(); return *v_; }
  T&& value() && { Need(); return std::move(*v_); }
  T& operator*() & { Need(); return *v_; }
  const T& operator*() const& { Need(); return *v_; }
  T&& operator*() && { Need(); return std::move(*v_); }
  T* operator->() { Need(); return &*v_; }
  const T* operator->() const { Need(); return &*v_; }
  template <typename U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <typename U> T value_or(U&& u) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  template <typename... A> T& emplace(A&&... a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a == *b : a.s_ == b.s_; }
 private:
  void Need() const { ABSL_CHECK(ok()) << "StatusOr value accessed on error: " << s_.ToString(); }
  Status s_;
  std::optional<T> v_;
};
}  // namespace absl
