#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include "absl/strings/str_cat.h"
#include <sstream>
// The engine (or anything else linked in) may define this to learn the text of a failed check.
extern "C" __attribute__((weak)) void ink_shim_fatal(const char* msg);
namespace absl::shim {
[[noreturn]] inline void Die(const std::string& m) {
  std::fprintf(stderr, "%s\n", m.c_str());
  if (ink_shim_fatal) ink_shim_fatal(m.c_str());
  std::fflush(stderr);
  std::abort();
}
class LogMsg {
 public:
  explicit LogMsg(std::string pre) : m_(std::move(pre)) {}
  template <typename T>
  LogMsg& operator<<(const T& v) {
    if constexpr (std::is_convertible_v<const T&, std::string_view> || HasAbslStringify<T> || std::is_arithmetic_v<T>) {
      if constexpr (std::is_same_v<T, char>) m_ += v; else m_ += ToStr(v);
    }
    else if constexpr (std::is_enum_v<T>) m_ += ToStr(v);
    else if constexpr (requires(std::ostream& o) { o << v; }) { std::ostringstream o; o << v; m_ += o.str(); }
    return *this;
  }
  LogMsg& self() { return *this; }
 protected:
  std::string m_;
};
class FatalMsg : public LogMsg { public: using LogMsg::LogMsg; [[noreturn]] ~FatalMsg() { Die(m_); } };
class QuietMsg : public LogMsg { public: using LogMsg::LogMsg; };
struct Voidify { void operator&&(LogMsg&) const {} void operator&&(LogMsg&&) const {} };
inline std::string At(const char* sev, const char* f, int l) { return std::string(sev) + " " + f + ":" + std::to_string(l) + "] "; }
}  // namespace absl::shim
#define INK_SHIM_LOG_INFO ::absl::shim::QuietMsg("")
#define INK_SHIM_LOG_WARNING ::absl::shim::QuietMsg("")
#define INK_SHIM_LOG_ERROR ::absl::shim::QuietMsg("")
#define INK_SHIM_LOG_FATAL ::absl::shim::FatalMsg(::absl::shim::At("F", __FILE__, __LINE__))
#define INK_SHIM_LOG_QFATAL INK_SHIM_LOG_FATAL
#define INK_SHIM_LOG_DFATAL INK_SHIM_LOG_FATAL
#define ABSL_LOG(sev) INK_SHIM_LOG_##sev.self()
#define ABSL_DLOG(sev) ABSL_LOG(sev)
#define ABSL_LOG_IF(sev, c) if (!(c)) {} else ABSL_LOG(sev)
#define ABSL_LOG_FIRST_N(sev, n) ABSL_LOG(sev)
#define ABSL_LOG_EVERY_N(sev, n) ABSL_LOG(sev)
#define ABSL_VLOG(n) if (true) {} else ABSL_LOG(INFO)
