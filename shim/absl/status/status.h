#pragma once
#include <ostream>
#include <string>
#include <string_view>
#include "absl/strings/str_cat.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled, kUnknown, kInvalidArgument, kDeadlineExceeded, kNotFound, kAlreadyExists, kPermissionDenied, kResourceExhausted, kFailedPrecondition, kAborted, kOutOfRange, kUnimplemented, kInternal, kUnavailable, kDataLoss, kUnauthenticated };
inline std::string StatusCodeToString(StatusCode c) {
  static const char* n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return (int)c >= 0 && (int)c < 17 ? n[(int)c] : "";
}
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << StatusCodeToString(c); }
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string_view m) : c_(c), m_(c == StatusCode::kOk ? "" : m) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  int raw_code() const { return (int)c_; }
  std::string_view message() const { return m_; }
  std::string ToString() const { return ok() ? "OK" : StatusCodeToString(c_) + ": " + m_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.c_ == b.c_ && a.m_ == b.m_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
  template <typename S> friend void AbslStringify(S& sink, const Status& s) { sink.Append(s.ToString()); }
 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
inline Status OkStatus() { return Status(); }
#define INK_SHIM_E(n) inline Status n##Error(std::string_view m) { return Status(StatusCode::k##n, m); } inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
INK_SHIM_E(Cancelled) INK_SHIM_E(Unknown) INK_SHIM_E(InvalidArgument) INK_SHIM_E(DeadlineExceeded) INK_SHIM_E(NotFound) INK_SHIM_E(AlreadyExists) INK_SHIM_E(PermissionDenied) INK_SHIM_E(ResourceExhausted) INK_SHIM_E(FailedPrecondition) INK_SHIM_E(Aborted) INK_SHIM_E(OutOfRange) INK_SHIM_E(Unimplemented) INK_SHIM_E(Internal) INK_SHIM_E(Unavailable) INK_SHIM_E(DataLoss)
#undef INK_SHIM_E
}  // namespace absl
