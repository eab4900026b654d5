#pragma once
#include "absl/log/absl_log.h"
#include <memory>
namespace absl::shim {
template <typename T> std::string CheckVal(const T& v) {
  if constexpr (HasAbslStringify<T> || std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_convertible_v<const T&, std::string_view>) return ToStr(v);
  else return "?";
}
#define INK_SHIM_OP(name, op) \
  template <typename A, typename B> std::unique_ptr<std::string> Check##name(const A& a, const B& b, const char* t) { \
    if (a op b) return nullptr; \
    return std::make_unique<std::string>(std::string("Check failed: ") + t + " (" + CheckVal(a) + " vs. " + CheckVal(b) + ") "); }
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wsign-compare"
INK_SHIM_OP(EQ, ==) INK_SHIM_OP(NE, !=) INK_SHIM_OP(LT, <) INK_SHIM_OP(LE, <=) INK_SHIM_OP(GT, >) INK_SHIM_OP(GE, >=)
#pragma clang diagnostic pop
#undef INK_SHIM_OP
}  // namespace absl::shim
#define INK_SHIM_CHECK_OP(name, op, a, b) \
  while (auto ink_shim_m = ::absl::shim::Check##name((a), (b), #a " " #op " " #b)) \
  ::absl::shim::FatalMsg(::absl::shim::At("F", __FILE__, __LINE__) + *ink_shim_m).self()
#define ABSL_CHECK(c) \
  (c) ? (void)0 : ::absl::shim::Voidify() && ::absl::shim::FatalMsg(::absl::shim::At("F", __FILE__, __LINE__) + "Check failed: " #c " ").self()
#define ABSL_CHECK_EQ(a, b) INK_SHIM_CHECK_OP(EQ, ==, a, b)
#define ABSL_CHECK_NE(a, b) INK_SHIM_CHECK_OP(NE, !=, a, b)
#define ABSL_CHECK_LT(a, b) INK_SHIM_CHECK_OP(LT, <, a, b)
#define ABSL_CHECK_LE(a, b) INK_SHIM_CHECK_OP(LE, <=, a, b)
#define ABSL_CHECK_GT(a, b) INK_SHIM_CHECK_OP(GT, >, a, b)
#define ABSL_CHECK_GE(a, b) INK_SHIM_CHECK_OP(GE, >=, a, b)
namespace absl::shim {
template <typename S> std::unique_ptr<std::string> CheckOk(const S& s, const char* t) {
  if (s.ok()) return nullptr;
  if constexpr (requires { s.message(); }) return std::make_unique<std::string>(std::string("Check failed: ") + t + " is OK (" + std::string(s.message()) + ") ");
  else return std::make_unique<std::string>(std::string("Check failed: ") + t + " is OK (" + std::string(s.status().message()) + ") ");
}
}
#define ABSL_CHECK_OK(s) \
  while (auto ink_shim_m = ::absl::shim::CheckOk((s), #s)) \
  ::absl::shim::FatalMsg(::absl::shim::At("F", __FILE__, __LINE__) + *ink_shim_m).self()
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_OK(c) ABSL_CHECK_OK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
