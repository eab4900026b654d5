#pragma once
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename F> class FunctionRef;
template <typename R, typename... A>
class FunctionRef<R(A...)> {
 public:
  template <typename F> requires(!std::is_same_v<std::remove_cvref_t<F>, FunctionRef> && std::is_invocable_r_v<R, const F&, A...> && !std::is_function_v<std::remove_pointer_t<std::decay_t<F>>>)
  FunctionRef(const F& f) : p_(const_cast<void*>((const void*)std::addressof(f))), c_([](void* p, A... a) -> R { return std::invoke(*static_cast<F*>(p), std::forward<A>(a)...); }) {}
  template <typename F> requires(std::is_function_v<F> && std::is_invocable_r_v<R, F*, A...>)
  FunctionRef(F* f) : p_((void*)f), c_([](void* p, A... a) -> R { return std::invoke((F*)p, std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(p_, std::forward<A>(a)...); }
 private:
  void* p_; R (*c_)(void*, A...);
};
}
