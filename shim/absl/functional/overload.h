#pragma once
namespace absl {
template <typename... T> struct Overload : T... { explicit Overload(T... t) : T(t)... {} using T::operator()...; };
template <typename... T> Overload(T...) -> Overload<T...>;
}
