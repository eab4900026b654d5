#pragma once
#include "absl/status/statusor.h"
#include "gmock/gmock.h"
namespace absl_testing {
namespace shim {
inline const absl::Status& St(const absl::Status& s) { return s; }
template <typename T> const absl::Status& St(const absl::StatusOr<T>& s) { return s.status(); }
}
MATCHER(IsOk, "") { return arg.ok(); }
template <typename M>
class IsOkAndHoldsM {
 public:
  explicit IsOkAndHoldsM(M m) : m_(m) {}
  template <typename S> operator testing::Matcher<S>() const { return testing::Matcher<S>(new Impl<S>(m_)); }
 private:
  template <typename S> class Impl : public testing::MatcherInterface<S> {
   public:
    using V = typename std::remove_cvref_t<S>::value_type;
    explicit Impl(const M& m) : m_(testing::SafeMatcherCast<const V&>(m)) {}
    void DescribeTo(std::ostream* o) const override { *o << "is OK and "; m_.DescribeTo(o); }
    bool MatchAndExplain(S s, testing::MatchResultListener* l) const override { return s.ok() && m_.MatchAndExplain(*s, l); }
    testing::Matcher<const V&> m_;
  };
  M m_;
};
template <typename M> IsOkAndHoldsM<std::decay_t<M>> IsOkAndHolds(M&& m) { return IsOkAndHoldsM<std::decay_t<M>>(std::forward<M>(m)); }
MATCHER_P(StatusIs1, code, "") { return shim::St(arg).code() == code; }
MATCHER_P2(StatusIs2, code, m, "") { return shim::St(arg).code() == code && testing::ExplainMatchResult(m, std::string(shim::St(arg).message()), result_listener); }
template <typename C> auto StatusIs(C c) { return StatusIs1(c); }
template <typename C, typename M> auto StatusIs(C c, M m) { return StatusIs2(c, m); }
}
