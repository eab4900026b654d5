#pragma once
#include <utility>
namespace absl {
template <typename F> class [[nodiscard]] Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  Cleanup(const Cleanup&) = delete;
  ~Cleanup() { if (on_) f_(); }
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; f_(); }
 private:
  F f_; bool on_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<F>;
}
