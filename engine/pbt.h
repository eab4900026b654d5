// Property-based testing engine: every generated case is a function of a choice sequence, so one
// body serves the random driver, the shrinker, the replay of a saved case and the coverage-guided
// fuzzer. See engine/driver.cc for the process that runs it.
#pragma once
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct Failure {
  std::string tag, msg;
};
struct Discard {};  // the case is outside the property's domain

inline uint64_t SplitMix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

template <typename T> std::string Show(const T& v);

class Ctx {
 public:
  // Random mode.
  explicit Ctx(uint64_t seed) : rng_(seed) {}
  // Replay mode.
  Ctx(const uint64_t* p, size_t n) : replay_(p), n_replay_(n), random_(false) {}
  // Bytes mode (coverage-guided fuzzing).
  Ctx(const uint8_t* p, size_t n, int) : bytes_(p), n_bytes_(n), random_(false) {}

  // --- choices; every one shrinks towards 0 / the first alternative / the shortest ---
  uint64_t Choice(uint64_t max) {
    uint64_t v;
    if (random_) {
      v = max == ~0ull ? SplitMix(rng_) : SplitMix(rng_) % (max + 1);
    } else if (bytes_) {
      v = 0;
      int nb = 0;
      for (uint64_t m = max; m; m >>= 8) ++nb;
      for (int i = 0; i < nb; ++i) v = v << 8 | (pos_ < n_bytes_ ? bytes_[pos_++] : 0);
      if (max != ~0ull) v %= max + 1;
    } else {
      v = pos_ < n_replay_ ? replay_[pos_++] : 0;
      if (max != ~0ull && v > max) v %= max + 1;
    }
    if (choices.size() < (1u << 20)) choices.push_back(v);
    return v;
  }
  // Uniform integer in [lo, hi]; shrinks towards lo.
  template <typename T = int> T Int(T lo, T hi) {
    return static_cast<T>(static_cast<uint64_t>(lo) + Choice(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  // Integer in [lo, hi] shrinking towards 0 when 0 is inside.
  int Signed(int lo, int hi) {
    uint64_t span = (uint64_t)((int64_t)hi - lo);
    int64_t v = (int64_t)Choice(span);
    // zig-zag from 0
    int64_t z = (v & 1) ? (v + 1) / 2 : -(v / 2);
    if (z < lo || z > hi) z = lo + v;
    return (int)z;
  }
  bool Bool() { return Choice(1); }
  // True with probability num/den; shrinks to false.
  bool Chance(unsigned num, unsigned den) { return Choice(den - 1) >= den - num; }
  template <typename T> const T& Pick(const std::vector<T>& v) { return v[Choice(v.size() - 1)]; }
  template <typename T> T PickOf(std::initializer_list<T> l) { return *(l.begin() + Choice(l.size() - 1)); }
  // Index with the given weights; shrinks towards index 0.
  int Weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int c = (int)Choice(t - 1), i = 0;
    for (int x : w) { if (c < x) return i; c -= x; ++i; }
    return 0;
  }
  // Length in [lo, hi], biased to small.
  int Len(int lo, int hi) {
    if (hi <= lo) return lo;
    int cap = lo + (int)Choice(hi - lo);
    return lo + (int)Choice(cap - lo);
  }
  // Uniform in [0, 1) with 24 bits.
  double Unit() { return (double)Choice((1u << 24) - 1) / (1u << 24); }
  double Uniform(double lo, double hi) {
    double r = lo + Unit() * (hi - lo);
    return r;
  }
  float UniformF(float lo, float hi) {
    float r = (float)Uniform(lo, hi);
    return r < lo ? lo : r > hi ? hi : r;
  }
  // A finite float of moderate size from several classes (integers, small lattice, uniform, tiny...).
  float Moderate(float mag = 1000) {
    switch (Choice(5)) {
      case 0: return (float)Signed(-8, 8);
      case 1: return (float)Signed(-64, 64) / 8;
      case 2: return UniformF(-mag, mag);
      case 3: return UniformF(-1, 1);
      case 4: return UniformF(-1, 1) * std::pow(10.f, (float)Signed(-6, 3));
      default: return (float)Signed((int)-mag, (int)mag);
    }
  }
  // Any finite float by bit pattern or special value.
  float AnyFinite() {
    switch (Choice(3)) {
      case 0: return Moderate();
      case 1: return PickOf<float>({0.f, -0.f, 1.f, -1.f, std::numeric_limits<float>::max(), std::numeric_limits<float>::lowest(),
                                    std::numeric_limits<float>::min(), -std::numeric_limits<float>::min(),
                                    std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min(),
                                    std::numeric_limits<float>::epsilon(), 1 + std::numeric_limits<float>::epsilon(), 16777216.f, 1e-20f, 1e20f, -1e20f});
      case 2: return std::ldexp(UniformF(-2, 2), Signed(-140, 126));
      default: {
        float f = std::bit_cast<float>((uint32_t)Choice(0xffffffffu));
        return std::isfinite(f) ? f : 0.5f;
      }
    }
  }
  float AnyFloat() {
    if (Chance(1, 6)) return PickOf<float>({std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()});
    return AnyFinite();
  }
  // Adjacent-float nudges of a value: exact boundary, one ulp either way.
  float Near(float v) {
    switch (Choice(4)) {
      case 0: return v;
      case 1: return std::nextafter(v, INFINITY);
      case 2: return std::nextafter(v, -INFINITY);
      case 3: return v + 1e-3f;
      default: return v - 1e-3f;
    }
  }

  // --- bookkeeping ---
  void NonTrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  bool nontrivial() const { return nontrivial_; }
  void Label(std::string l, bool on = true) { if (on) labels.insert(std::move(l)); }
  bool describing = false;
  std::string note;
  template <typename... A> void Note(const A&... a) {
    if (!describing) return;
    std::ostringstream o;
    ((o << Show(a)), ...);
    note += o.str();
    note += '\n';
  }
  std::vector<uint64_t> choices;
  std::set<std::string> labels;

 private:
  uint64_t rng_ = 0;
  const uint64_t* replay_ = nullptr;
  size_t n_replay_ = 0;
  const uint8_t* bytes_ = nullptr;
  size_t n_bytes_ = 0;
  size_t pos_ = 0;
  bool random_ = true;
  bool nontrivial_ = false;
};

inline std::string ShowFloat(double v, bool is_float) {
  char b[96];
  if (is_float) std::snprintf(b, sizeof b, "%.9g", v); else std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
template <typename T> std::string Show(const T& v) {
  if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
  else if constexpr (std::is_floating_point_v<T>) return ShowFloat(v, sizeof(T) == 4);
  else if constexpr (std::is_enum_v<T>) return std::to_string((long long)v);
  else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string(std::string_view(v));
  else if constexpr (requires { pbt_show(v); }) return pbt_show(v);
  else if constexpr (requires { v.begin(); v.end(); }) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : v) { if (!first) r += ", "; first = false; r += Show(x); }
    return r + "]";
  } else if constexpr (requires { v.has_value(); *v; }) return v.has_value() ? Show(*v) : std::string("nullopt");
  else if constexpr (requires(std::ostream& o) { o << v; }) { std::ostringstream o; o << v; return o.str(); }
  else return "?";
}
template <typename... A> std::string Cat(const A&... a) {
  std::string r;
  ((r += Show(a)), ...);
  return r;
}

[[noreturn]] inline void Fail(std::string tag, std::string msg) { throw Failure{std::move(tag), std::move(msg)}; }
// PROP(condition, "tag", details...): the tag names the clause of the property that is checked.
#define PROP(cond, tag, ...)                                                            \
  do {                                                                                  \
    if (!(cond)) ::pbt::Fail(tag, ::pbt::Cat("violated: " #cond " -- ", ##__VA_ARGS__)); \
  } while (0)
#define ASSUME(cond) do { if (!(cond)) throw ::pbt::Discard{}; } while (0)

struct Prop {
  const char* name;
  const char* rule;    // what makes a case non-trivial
  int weight;          // relative share of the cases
  void (*fn)(Ctx&);
};
std::vector<Prop>& Registry();
struct Registrar {
  Registrar(const char* n, const char* r, int w, void (*f)(Ctx&)) { Registry().push_back({n, r, w, f}); }
};
#define PBT(name, weight, rule)                                             \
  static void pbt_body_##name(::pbt::Ctx& c);                               \
  static ::pbt::Registrar pbt_reg_##name(#name, rule, weight, pbt_body_##name); \
  static void pbt_body_##name([[maybe_unused]] ::pbt::Ctx& c)

extern bool g_quiet_fatal;
// True when running f ends the process (a documented crash). Forks; use it rarely.
template <typename F> bool Dies(F f) {
  std::fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    signal(SIGFPE, SIG_DFL);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    g_quiet_fatal = true;
    f();
    _exit(0);
  }
  int st = 0;
  if (p < 0 || waitpid(p, &st, 0) != p) throw Discard{};
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

// Resets state that outlives a case (optional hook of a harness).
extern void (*g_reset)();

// Numeric helpers for oracles.
inline bool Near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol;
}
inline bool NearRel(double a, double b, double rel, double abs_tol = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_tol;
}
inline bool SameBits(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

}  // namespace pbt
