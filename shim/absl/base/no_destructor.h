#pragma once
#include <new>
#include <utility>
namespace absl {
template <typename T> class NoDestructor {
 public:
  template <typename... A> explicit NoDestructor(A&&... a) { new (&s_) T(std::forward<A>(a)...); }
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(&s_); }
  const T& operator*() const { return *reinterpret_cast<const T*>(&s_); }
 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
}
