// Containers: fixed-capacity array, copy-on-write holder, iterator range; each against a plain model.
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "ink/types/internal/copy_on_write.h"
#include "ink/types/iterator_range.h"
#include "ink/types/small_array.h"

using pbt::Ctx;

namespace {

template <typename T> struct Gen;
template <> struct Gen<int> {
  static int Make(Ctx& c) { return c.Signed(-5, 5); }
};
template <> struct Gen<std::shared_ptr<int>> {
  static std::shared_ptr<int> Make(Ctx& c) { return std::make_shared<int>(c.Signed(-5, 5)); }
};
template <> struct Gen<std::string> {
  static std::string Make(Ctx& c) { return std::string(c.Choice(20), (char)('a' + c.Choice(3))); }
};

template <typename T, uint8_t N> void CheckArray(Ctx& c, ink::SmallArray<T, N>& a, const std::vector<T>& m) {
  PROP(a.Size() == m.size() && a.MaxSize() == N, "size", (int)a.Size(), " vs ", m.size());
  const auto& ca = a;
  PROP(a.Values().size() == m.size() && ca.Values().size() == m.size(), "span-size");
  for (size_t i = 0; i < m.size(); ++i) {
    PROP(a[(uint8_t)i] == m[i] && ca[(uint8_t)i] == m[i], "element", i);
    PROP(a.Values()[i] == m[i] && ca.Values()[i] == m[i], "span-element", i);
    PROP(&a[(uint8_t)i] == a.Values().data() + i, "contiguous", i);
  }
}

template <typename T, uint8_t N> void ArrayHistory(Ctx& c) {
  using A = ink::SmallArray<T, N>;
  std::vector<A> as;
  std::vector<std::vector<T>> ms;
  std::vector<std::weak_ptr<int>> released;
  int steps = c.Len(1, 14);
  for (int s = 0; s < steps; ++s) {
    int op = (int)c.Choice(9);
    if (as.empty() || op <= 2) {
      int n = (int)c.Choice(N);
      if (op == 0) {
        T v = Gen<T>::Make(c);
        c.Note("new(", n, ", value)");
        as.emplace_back((uint8_t)n, v);
        ms.emplace_back(n, v);
      } else if (op == 1) {
        std::vector<T> v;
        for (int i = 0; i < n; ++i) v.push_back(Gen<T>::Make(c));
        c.Note("new(span of ", n, ")");
        as.emplace_back(absl::Span<const T>(v.data(), v.size()));
        ms.push_back(v);
      } else if (op == 2 && N >= 3) {
        T x = Gen<T>::Make(c), y = Gen<T>::Make(c);
        c.Note("new({x,y,x})");
        as.push_back(A{x, y, x});
        ms.push_back({x, y, x});
      } else {
        c.Note("new()");
        as.emplace_back();
        ms.emplace_back();
      }
      continue;
    }
    size_t i = c.Choice(as.size() - 1), j = c.Choice(as.size() - 1);
    switch (op) {
      case 3:
      case 4:
      case 5: {
        uint8_t n = (uint8_t)c.Choice(N);
        c.NonTrivial(n != as[i].Size());
        if (c.Bool()) {
          T v = Gen<T>::Make(c);
          c.Note("#", i, ".Resize(", (int)n, ", value)");
          as[i].Resize(n, v);
          ms[i].resize(n, v);
        } else {
          c.Note("#", i, ".Resize(", (int)n, ")");
          as[i].Resize(n);
          ms[i].resize(n);
        }
        c.Label("shrink-then-grow", true);
        break;
      }
      case 6:
        if (!ms[i].empty()) {
          size_t k = c.Choice(ms[i].size() - 1);
          T v = Gen<T>::Make(c);
          c.Note("#", i, "[", k, "] = value");
          if (c.Bool()) as[i][(uint8_t)k] = v; else as[i].Values()[k] = v;
          ms[i][k] = v;
        }
        break;
      case 7:
        c.Note("#", i, " = #", j);
        as[i] = as[j];
        ms[i] = std::vector<T>(ms[j]);
        break;
      case 8:
        c.Note("copy of #", i);
        as.push_back(A(as[i]));
        ms.push_back(std::vector<T>(ms[i]));
        break;
      default:
        PROP((as[i] == as[j]) == (ms[i] == ms[j]), "equality", i, " ", j);
    }
    for (size_t k = 0; k < as.size(); ++k) CheckArray<T, N>(c, as[k], ms[k]);
  }
  // elements that were dropped by shrinking are really gone
  if constexpr (std::is_same_v<T, std::shared_ptr<int>>) {
    std::map<int*, long> model_uses;
    for (auto& m : ms) for (auto& p : m) if (p) ++model_uses[p.get()];
    for (auto& m : ms)
      for (auto& p : m)
        if (p) PROP(p.use_count() == 2 * model_uses[p.get()], "excess-elements-released", p.use_count(), " owners, expected ", 2 * model_uses[p.get()]);
  }
}

struct Big {
  int id = 0;
  std::string text;
  static inline int live = 0;
  Big() { ++live; }
  Big(int i, std::string t) : id(i), text(std::move(t)) { ++live; }
  Big(const Big& o) : id(o.id), text(o.text) { ++live; }
  ~Big() { --live; }
  bool operator==(const Big& o) const { return id == o.id && text == o.text; }
};

template <typename It> void CheckRange(ink::iterator_range<It> r, It b, It e, size_t n) {
  PROP(r.begin() == b && r.end() == e, "range-bounds");
  PROP(r.empty() == (n == 0), "range-empty", n);
  size_t k = 0;
  It p = b;
  for (auto& x : r) {
    PROP(&x == &*p, "range-element", k);
    ++p;
    ++k;
  }
  PROP(k == n, "range-length", k, " vs ", n);
  if constexpr (requires { r.size(); }) PROP(r.size() == n, "range-size", r.size(), " vs ", n);
}
template <typename C> void RangeOver(Ctx& c, C& v, size_t n) {
  size_t a = n ? c.Choice(n) : 0, b = n ? c.Choice(n) : 0;
  if (a > b) std::swap(a, b);
  c.NonTrivial(a > 0 && b < n && a < b);
  c.Note(n, " elements, range [", a, ", ", b, ")");
  auto x = std::next(v.begin(), a), y = std::next(v.begin(), b);
  using It = decltype(x);
  CheckRange<It>(ink::make_range(x, y), x, y, b - a);
  CheckRange<It>(ink::make_range(std::pair<It, It>(x, y)), x, y, b - a);
  CheckRange<It>(ink::iterator_range<It>(x, y), x, y, b - a);
  const C& cv = v;
  auto cx = std::next(cv.begin(), a), cy = std::next(cv.begin(), b);
  using CIt = decltype(cx);
  CheckRange<CIt>(ink::make_range(cx, cy), cx, cy, b - a);
  auto copy = ink::make_range(x, y);
  auto other = ink::make_range(v.begin(), v.end());
  other = copy;
  CheckRange<It>(other, x, y, b - a);
  CheckRange<It>(copy, x, y, b - a);
}
}  // namespace

PBT(small_array_int, 3, "some resize changes the size") { ArrayHistory<int, 8>(c); }
PBT(small_array_string, 2, "some resize changes the size") { ArrayHistory<std::string, 4>(c); }
PBT(small_array_shared, 3, "some resize changes the size") { ArrayHistory<std::shared_ptr<int>, 5>(c); }
PBT(small_array_wide, 1, "some resize changes the size") { ArrayHistory<int, 255>(c); }

PBT(copy_on_write, 5, "a write happens through a handle that shares its value") {
  using H = ink_internal::CopyOnWrite<Big>;
  int before = Big::live;
  {
    std::vector<H> hs(3);
    std::vector<int> group(3, -1);       // model: which value object each handle names
    std::vector<std::optional<Big>> val; // model: the value objects
    int steps = c.Len(1, 20);
    auto shared = [&](size_t i) {
      int n = 0;
      for (int g : group) n += g >= 0 && g == group[i];
      return n > 1;
    };
    for (int s = 0; s < steps; ++s) {
      size_t i = c.Choice(hs.size() - 1), j = c.Choice(hs.size() - 1);
      Big b(c.Signed(-9, 9), std::string(c.Choice(20), 'x'));
      switch (c.Choice(9)) {
        case 0:
        case 1: {
          c.Note("#", i, ".Emplace(", b.id, ")");
          Big& r = hs[i].Emplace(b.id, b.text);
          PROP(r == b, "emplace-result");
          val.emplace_back(b);
          group[i] = (int)val.size() - 1;
          break;
        }
        case 2:
        case 3:
          c.Note("#", i, " = #", j);
          hs[i] = hs[j];
          group[i] = group[j];
          break;
        case 4:
          if (i != j) {
            c.Note("#", i, " = move(#", j, ")");
            hs[i] = std::move(hs[j]);
            group[i] = group[j];
            group[j] = -1;
          }
          break;
        case 5:
          c.Note("#", i, ".Reset()");
          hs[i].Reset();
          group[i] = -1;
          break;
        case 6:
          c.Note("push copy of #", i);
          if (hs.size() < 6) {
            hs.push_back(H(hs[i]));
            group.push_back(group[i]);
          }
          break;
        case 7: {
          c.Note("#", i, " = CopyOnWrite(", b.id, ")");
          if (c.Bool()) hs[i] = H(b); else hs[i] = H(Big(b));
          val.emplace_back(b);
          group[i] = (int)val.size() - 1;
          break;
        }
        default:
          if (group[i] >= 0) {
            bool sh = shared(i);
            c.NonTrivial(sh);
            c.Note("#", i, ".MutableValue() <- ", b.id, sh ? " (shared)" : "");
            const Big* old = &hs[i].Value();
            Big& m = hs[i].MutableValue();
            PROP(m == *val[group[i]], "mutable-value-starts-equal");
            PROP(sh == (&m != old), "copies-only-when-shared", sh);
            if (sh) {
              val.emplace_back(*val[group[i]]);
              group[i] = (int)val.size() - 1;
            }
            m.id = b.id;
            m.text = b.text;
            val[group[i]]->id = b.id;
            val[group[i]]->text = b.text;
          }
      }
      for (size_t k = 0; k < hs.size(); ++k) {
        PROP(hs[k].HasValue() == (group[k] >= 0), "has-value", k);
        PROP(hs[k].IsShared() == shared(k), "is-shared", k);
        if (group[k] >= 0) {
          PROP(hs[k].Value() == *val[group[k]], "value-isolated", "handle ", k, " reads ", hs[k].Value().id, ", expected ", val[group[k]]->id);
          PROP(&*hs[k] == &hs[k].Value() && hs[k].operator->() == &hs[k].Value(), "accessors-agree");
        }
      }
    }
  }
  PROP(Big::live == before, "all-values-destroyed", Big::live - before);
}

PBT(iterator_range, 4, "a proper inner sub-range that is not empty") {
  int n = c.Len(0, 12);
  std::vector<int> src;
  for (int i = 0; i < n; ++i) src.push_back(c.Signed(-9, 9));
  switch (c.Choice(6)) {
    case 0: RangeOver(c, src, n); break;
    case 1: { std::deque<int> d(src.begin(), src.end()); RangeOver(c, d, n); break; }
    case 2: { std::list<int> d(src.begin(), src.end()); RangeOver(c, d, n); break; }
    case 3: { std::forward_list<int> d(src.begin(), src.end()); RangeOver(c, d, n); break; }
    case 4: {
      std::multimap<int, int> m;
      for (int i = 0; i < n; ++i) m.insert({src[i], i});
      int key = c.Signed(-9, 9);
      auto r = ink::make_range(m.equal_range(key));
      size_t k = 0;
      for (auto& e : r) { PROP(e.first == key, "equal-range-key"); ++k; }
      PROP(k == m.count(key), "equal-range-count", k);
      PROP(r.empty() == (k == 0), "equal-range-empty");
      c.NonTrivial(k > 1);
      break;
    }
    case 5: {
      int* p = src.data();
      size_t a = c.Choice(n), b = c.Choice(n);
      if (a > b) std::swap(a, b);
      c.NonTrivial(a > 0 && b < (size_t)n && a < b);
      CheckRange<int*>(ink::make_range(p + a, p + b), p + a, p + b, b - a);
      break;
    }
    default: {
      ink::iterator_range<std::vector<int>::iterator> r;
      PROP(r.empty() && r.size() == 0, "default-range-empty");
      ink::iterator_range<int*> q;
      PROP(q.empty() && q.size() == 0 && q.begin() == q.end(), "default-range-empty");
      std::string text(c.Choice(9), 'q');
      CheckRange<std::string::iterator>(ink::make_range(text.begin(), text.end()), text.begin(), text.end(), text.size());
      c.NonTrivial(text.size() > 1);
    }
  }
}
