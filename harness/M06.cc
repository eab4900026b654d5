// Closing and trimming hand-drawn outlines before they are filled.
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/internal/polyline_processing.h"
#include "ink/geometry/point.h"

using ink::Point;
using ink::geometry_internal::ProcessPolylineForMeshCreation;
using pbt::Ctx;
using poly::P;

namespace {
struct Params { float walk, reach, ratio, trim; };
// A place on the path: in part i, at fraction t of it.
struct At { int i = -1; double t = 0, walk = 0; };

// What the documentation asks for, by looking at all pairs. Gives up (by discarding the case) where a decision is too close to call.
struct Reference {
  const std::vector<P>& p;
  Params k;
  int n;
  std::vector<double> len, before;
  double size = 0;
  At first, last, to_first, to_last;
  bool crossed = false, close_first = false, close_last = false;
  Reference(const std::vector<P>& p, Params k) : p(p), k(k), n((int)p.size() - 1) {
    before.push_back(0);
    for (int i = 0; i < n; ++i) len.push_back(poly::Dist(p[i], p[i + 1])), before.push_back(before.back() + len[i]);
    for (P q : p) size = std::max({size, std::abs(q.x), std::abs(q.y)});
    Cross();
    if (n >= 1) Connect();
  }
  P Place(const At& a) const { return {p[a.i].x + a.t * (p[a.i + 1].x - p[a.i].x), p[a.i].y + a.t * (p[a.i + 1].y - p[a.i].y)}; }
  double From(const At& a) const { return before[a.i] + a.t * len[a.i]; }
  double Until(const At& a) const { return before[n] - From(a); }
  void Close(double a, double b) const { if (std::abs(a - b) < 1e-4 * (std::abs(a) + std::abs(b)) + 1e-5 * size) throw pbt::Discard{}; }
  void Cross() {
    auto better = [&](const At& a) {
      if (!crossed) { first = a; return; }
      double d = From(a) - From(first);
      if (d < 0) first = a;
    };
    for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) {
      P a = p[i], b = p[i + 1], c = p[j], d = p[j + 1];
      double den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
      double s = (c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x), t = (c.x - a.x) * (b.y - a.y) - (c.y - a.y) * (b.x - a.x);
      std::optional<std::pair<double, double>> at;
      bool shared = false;
      for (int u = 0; u < 2; ++u) for (int v = 0; v < 2; ++v) if (p[i + u] == p[j + v]) at = {u, v}, shared = true;
      bool level = std::abs(den) < 1e-3 * len[i] * len[j];
      if (!shared && level) {
        // Nearly parallel: no crossing as long as they are apart.
        double gap = std::min({poly::PointSeg(a, c, d), poly::PointSeg(b, c, d), poly::PointSeg(c, a, b), poly::PointSeg(d, a, b)});
        if (gap < 1e-4 * size) throw pbt::Discard{};
        continue;
      }
      if (shared && level) throw pbt::Discard{};
      if (!shared) {
        s /= den, t /= den;
        for (double v : {s, t}) if (std::min(s, t) > -1e-3 && std::max(s, t) < 1 + 1e-3 && (std::abs(v) < 1e-3 || std::abs(v - 1) < 1e-3)) throw pbt::Discard{};
        if (s <= 0 || s >= 1 || t <= 0 || t >= 1) continue;
        at = {s, t};
      }
      At x{i, at->first}, y{j, at->second};
      better(x);
      if (!crossed || From(y) > From(last)) last = y;
      crossed = true;
    }
    if (!crossed) return;
    first.walk = From(first), last.walk = Until(last);
  }
  std::optional<At> Nearest(P from, bool back) {
    std::optional<At> best;
    double best_d = INFINITY;
    std::vector<double> ok;
    for (int i = 0; i < n; ++i) {
      if (back ? i >= n - 2 : i <= 1) continue;
      double d = poly::PointSeg(from, p[i], p[i + 1]);
      Close(d, k.reach);
      if (d >= k.reach) continue;
      double q = len[i] * len[i], t = std::clamp(((from.x - p[i].x) * (p[i + 1].x - p[i].x) + (from.y - p[i].y) * (p[i + 1].y - p[i].y)) / q, 0.0, 1.0);
      At a{i, t};
      double walk = back ? Until(a) : From(a);
      Close(walk, k.walk);
      if (walk < k.walk) continue;
      Close(walk, k.ratio * d);
      if (walk < k.ratio * d) continue;
      if (crossed) {
        double w = back ? last.walk : first.walk;
        // At the very start the distance to the crossing and to the place may both be nothing.
        if (d < 1e-6 * size && w < 1e-6 * size) throw pbt::Discard{};
        Close(w, k.trim * d);
        if (w < k.trim * d) continue;
      }
      if (best && std::abs(d - best_d) < 1e-5 * size && poly::Dist(Place(a), Place(*best)) > 1e-5 * size) throw pbt::Discard{};
      if (d < best_d) best = a, best_d = d;
    }
    return best;
  }
  void Connect() {
    auto f = Nearest(p.front(), false), l = Nearest(p.back(), true);
    if (f) close_first = true, to_first = *f;
    if (l) close_last = true, to_last = *l;
  }
  std::vector<P> Result() {
    if (!crossed && !close_first && !close_last) return p;
    // Where to cut each end that is not connected: at the outermost crossing, counting the connection of the other end.
    At a = first, b = last;
    if (close_first && !close_last && (!crossed || From(to_first) > From(last))) b = to_first;
    if (close_last && !close_first && (!crossed || From(to_last) < From(first))) a = to_last;
    std::vector<P> r;
    r.push_back(Place(close_first ? to_first : a));
    for (int i = close_first ? 0 : a.i + 1; i <= (close_last ? n : b.i); ++i) r.push_back(p[i]);
    r.push_back(Place(close_last ? to_last : b));
    return r;
  }
};
std::vector<P> Plain(const std::vector<P>& v, double tol) {
  std::vector<P> r;
  for (P q : v) if (r.empty() || poly::Dist(r.back(), q) > tol) r.push_back(q);
  return r;
}
std::vector<P> Plain(const std::vector<Point>& v, double tol) {
  std::vector<P> r;
  for (Point q : v) r.push_back(poly::Of(q));
  return Plain(r, tol);
}
Params Limits(Ctx& c, float unit) {
  return {c.PickOf<float>({2, 0, 5, 20}) * unit, c.PickOf<float>({1.1f, 3, 0.3f, 8}) * unit, c.PickOf<float>({2, 1, 1.2f, 5}), c.PickOf<float>({1.8f, 0.5f, 1, 4})};
}
std::vector<Point> Path(Ctx& c, float unit) {
  std::vector<Point> p;
  int kind = c.Choice(2), n = c.Len(0, 25);
  double a = c.Unit() * 6.28, turn = c.Uniform(0.1, 0.8), step = c.Uniform(0.5, 3), bend = c.Uniform(-0.05, 0.1);
  P at{c.Uniform(-5, 5), c.Uniform(-5, 5)};
  for (int i = 0; i < n; ++i) {
    if (kind == 0) at = {c.Uniform(-6, 6), c.Uniform(-6, 6)};
    if (kind == 1) { a += turn, turn += bend * c.Unit(); at = {at.x + step * std::cos(a), at.y + step * std::sin(a)}; }
    if (kind == 2) { a += c.Uniform(-1.2, 1.2); at = {at.x + step * std::cos(a), at.y + step * std::sin(a)}; }
    p.push_back({(float)(at.x * unit), (float)(at.y * unit)});
    if (p.size() > 3 && c.Chance(1, 20)) p.push_back(p[c.Choice(p.size() - 4)]), at = {p.back().x / unit, p.back().y / unit};
  }
  if (p.size() > 3 && c.Chance(1, 6)) p.push_back(p[c.Choice(1)]);
  return p;
}
void Show(Ctx& c, const std::vector<Point>& p, Params k) {
  c.Note("walk ", k.walk, " reach ", k.reach, " ratio ", k.ratio, " trim ", k.trim);
  for (Point q : p) c.Note(pbt::Show(q));
}

PBT(Closing, 3, "an end is trimmed or connected") {
  float unit = c.PickOf<float>({1, 0.01f, 100});
  std::vector<Point> p = Path(c, unit);
  for (size_t i = 1; i < p.size(); ++i) if (p[i] == p[i - 1]) throw pbt::Discard{};
  Params k = Limits(c, unit);
  Show(c, p, k);
  std::vector<P> d;
  for (Point q : p) d.push_back(poly::Of(q));
  Reference r(d, k);
  std::vector<Point> got = ProcessPolylineForMeshCreation(p, k.walk, k.reach, k.ratio, k.trim);
  double tol = 1e-3 * r.size;
  if (!r.crossed && !r.close_first && !r.close_last) { PROP(got == p, "unchanged", "became ", got.size(), " points"); return; }
  c.NonTrivial();
  c.Label("trimmed both", !r.close_first && !r.close_last);
  c.Label("connected both", r.close_first && r.close_last);
  c.Label("connected start", r.close_first && !r.close_last);
  c.Label("connected end", !r.close_first && r.close_last);
  std::vector<P> want = Plain(r.Result(), tol), have = Plain(got, tol);
  std::string show;
  for (P q : have) show += pbt::Cat(" (", q.x, ", ", q.y, ")");
  bool same = want.size() == have.size();
  for (size_t i = 0; same && i < want.size(); ++i) same = poly::Dist(want[i], have[i]) < 2 * tol;
  PROP(same, "points", "expected ", want.size(), " points from (", want[0].x, ", ", want[0].y, ") to (", want.back().x, ", ", want.back().y, "), got", show);
  // Points in between are the ones given.
  for (size_t i = 1; i + 1 < got.size(); ++i) PROP(std::find(p.begin(), p.end(), got[i]) != p.end(), "between", pbt::Show(got[i]));
}

PBT(Repeats, 2, "repeated points") {
  float unit = c.PickOf<float>({1, 0.01f, 100});
  std::vector<Point> p = Path(c, unit), q;
  for (size_t i = 1; i < p.size(); ++i) if (p[i] == p[i - 1]) throw pbt::Discard{};
  Params k = Limits(c, unit);
  for (Point a : p) for (int m = c.Chance(1, 3) ? c.Int(1, 3) : 1; m > 0; --m) q.push_back(a);
  Show(c, q, k);
  c.NonTrivial(q.size() > p.size());
  std::vector<Point> one = ProcessPolylineForMeshCreation(p, k.walk, k.reach, k.ratio, k.trim), many = ProcessPolylineForMeshCreation(q, k.walk, k.reach, k.ratio, k.trim);
  auto plain = [](std::vector<Point> v) { v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
  PROP(plain(one) == plain(many), "repeated", "a pen that rests changes the outcome from ", one.size(), " to ", many.size(), " points");
}
}  // namespace
