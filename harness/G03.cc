// Axis-aligned rectangles and envelopes: every operation against a double-precision model.
#include <array>
#include <cmath>
#include <list>
#include <optional>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/rect.h"

using ink::Envelope;
using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::Triangle;
using ink::Vec;
using pbt::Ctx;

namespace {
constexpr double kEps = 1.1920929e-7;
constexpr double kMax = 3.4028234663852886e38;

float Coord(Ctx& c) { return c.Chance(1, 4) ? c.AnyFinite() : c.Moderate(); }
Point GenPoint(Ctx& c) { float x = Coord(c); return {x, Coord(c)}; }
Rect GenRect(Ctx& c) {
  Point a = GenPoint(c), b = GenPoint(c);
  if (c.Chance(1, 10)) b.x = a.x;
  if (c.Chance(1, 10)) b.y = a.y;
  return Rect::FromTwoPoints(a, b);
}
float Size(Ctx& c) { return std::fabs(c.Chance(1, 8) ? 0 : Coord(c)); }
struct D { double lo, hi; };
struct M { D x, y; };  // model rectangle
M Of(const Rect& r) { return {{r.XMin(), r.XMax()}, {r.YMin(), r.YMax()}}; }
// compares one extent; `mag` is the largest magnitude that took part in the computation
void Cmp(const char* tag, double got, double want, double mag) {
  if (std::fabs(want) > kMax * 0.9999 || mag > kMax * 0.9999) return;
  PROP(std::fabs(got - want) <= 4 * kEps * mag + 6e-45, tag, got, " expected ", want, " magnitude ", mag);
}
void CmpD(const char* tag, float lo, float hi, D w, double mag) {
  mag = std::max({mag, std::fabs(w.lo), std::fabs(w.hi)});
  Cmp(tag, lo, w.lo, mag);
  Cmp(tag, hi, w.hi, mag);
  if (mag < kMax * 0.9999) PROP(lo <= hi, "ordered-bounds", tag, lo, hi);
}
double Mag(D d) { return std::max(std::fabs(d.lo), std::fabs(d.hi)); }
}  // namespace

PBT(accessors, 3, "width and height are not zero") {
  Rect r;
  bool from_center = c.Bool();
  if (from_center) {
    Point p = GenPoint(c);
    float w = Size(c), h = Size(c);
    r = Rect::FromCenterAndDimensions(p, w, h);
    CmpD("from-center-x", r.XMin(), r.XMax(), {p.x - w / 2.0, p.x + w / 2.0}, std::fabs(p.x));
    CmpD("from-center-y", r.YMin(), r.YMax(), {p.y - h / 2.0, p.y + h / 2.0}, std::fabs(p.y));
    ASSUME(std::isfinite(r.XMin()) && std::isfinite(r.XMax()) && std::isfinite(r.YMin()) && std::isfinite(r.YMax()));
  } else {
    Point a = GenPoint(c), b = GenPoint(c);
    r = Rect::FromTwoPoints(a, b);
    PROP(r.XMin() == std::min(a.x, b.x) && r.XMax() == std::max(a.x, b.x) && r.YMin() == std::min(a.y, b.y) && r.YMax() == std::max(a.y, b.y), "from-two-points", a, b, r);
    PROP(r.Contains(a) && r.Contains(b), "contains-both", a, b, r);
  }
  c.Note(r);
  c.NonTrivial(r.XMin() < r.XMax() && r.YMin() < r.YMax());
  double w = (double)r.XMax() - r.XMin(), h = (double)r.YMax() - r.YMin();
  PROP(r.Width() == (float)w && r.Height() == (float)h, "width-height", r, r.Width(), r.Height());
  Cmp("semi-width", r.SemiWidth(), w / 2, w / 2);
  Cmp("semi-height", r.SemiHeight(), h / 2, h / 2);
  PROP(std::isfinite(r.SemiWidth()) && std::isfinite(r.SemiHeight()), "semi-sizes-finite", r);
  Point m = r.Center();
  Cmp("center-x", m.x, ((double)r.XMin() + r.XMax()) / 2, std::max(Mag({r.XMin(), r.XMax()}) / 2, 1e-44));
  Cmp("center-y", m.y, ((double)r.YMin() + r.YMax()) / 2, std::max(Mag({r.YMin(), r.YMax()}) / 2, 1e-44));
  auto normal = [](float v) { return v == 0 || std::fabs(v) > 1e-37f; };  // halving a denormal rounds
  if (normal(r.XMin()) && normal(r.XMax()) && normal(r.YMin()) && normal(r.YMax())) PROP(r.Contains(m), "contains-center", r, m);
  float a = r.Area();
  PROP(a >= 0 || (std::isnan(a) && (std::isinf(r.Width()) || std::isinf(r.Height()))), "area-non-negative", r, a);
  if (w * h < kMax * 0.999 && w < kMax && h < kMax) PROP(pbt::NearRel(a, w * h, 3 * kEps, 1e-44), "area", r, a);
  if (r.Height() != 0 && std::isfinite(r.Width()) && std::isfinite(r.Height()) && w / h < kMax * 0.99) PROP(pbt::NearRel(r.AspectRatio(), (double)r.Width() / r.Height(), 3 * kEps, 1e-44), "aspect-ratio", r, r.AspectRatio());
  std::array<Point, 4> k = r.Corners(), e = {Point{r.XMin(), r.YMin()}, Point{r.XMax(), r.YMin()}, Point{r.XMax(), r.YMax()}, Point{r.XMin(), r.YMax()}};
  for (int i = 0; i < 4; ++i) {
    PROP(k[i] == e[i], "corners", i, k[i]);
    Segment s = r.GetEdge(i);
    PROP(s.start == e[i] && s.end == e[(i + 1) % 4], "edges", i, s);
  }
  if (c.Chance(1, 60)) PROP(absl::StrCat(r) == absl::StrCat("Rect[", r.Width(), " by ", r.Height(), " from (", r.XMin(), ", ", r.YMin(), ") to (", r.XMax(), ", ", r.YMax(), ")]"), "text", absl::StrCat(r));
}

PBT(contains, 3, "the point is on the boundary or one step away from it") {
  Rect r = GenRect(c);
  auto coord = [&](float lo, float hi) {
    switch (c.Choice(4)) {
      case 0: return Coord(c);
      case 1: return c.Near(lo);
      case 2: return c.Near(hi);
      default: return c.UniformF(0, 1) * (hi / 2 - lo / 2) * 2 + lo;
    }
  };
  float x0 = coord(r.XMin(), r.XMax()), y0 = coord(r.YMin(), r.YMax()), x1 = coord(r.XMin(), r.XMax()), y1 = coord(r.YMin(), r.YMax());
  c.Note(r, Point{x0, y0}, Point{x1, y1});
  bool in = r.XMin() <= x0 && x0 <= r.XMax() && r.YMin() <= y0 && y0 <= r.YMax();
  c.NonTrivial(x0 == r.XMin() || x0 == r.XMax() || y0 == r.YMin() || y0 == r.YMax() || std::nextafter(x0, r.XMin()) == r.XMin() || std::nextafter(y0, r.YMin()) == r.YMin());
  c.Label("inside", in);
  PROP(r.Contains(Point{x0, y0}) == in, "contains-point", r, Point{x0, y0});
  ASSUME(!std::isnan(x0 + x1 + y0 + y1));
  Rect q = Rect::FromTwoPoints({x0, y0}, {x1, y1});
  bool inr = r.XMin() <= q.XMin() && q.XMax() <= r.XMax() && r.YMin() <= q.YMin() && q.YMax() <= r.YMax();
  c.Label("rect-inside", inr);
  PROP(r.Contains(q) == inr, "contains-rect", r, q);
}

PBT(history, 6, "at least three operations of different kinds") {
  Rect r = c.Chance(1, 10) ? Rect() : GenRect(c);
  int n = 1 + c.Len(0, 9);
  std::set<int> kinds;
  c.Note("start ", r);
  for (int i = 0; i < n; ++i) {
    M m = Of(r);
    double w = m.x.hi - m.x.lo, h = m.y.hi - m.y.lo, cx = (m.x.lo + m.x.hi) / 2, cy = (m.y.lo + m.y.hi) / 2;
    int op = (int)c.Choice(16);
    kinds.insert(op);
    Rect before = r;
    M want = m;
    double mx = Mag(m.x), my = Mag(m.y);
    bool kx = false, ky = false;  // extents that must not change at all
    auto grow = [](D d, double by) {
      D e{d.lo - by, d.hi + by};
      if (e.hi < e.lo) e.lo = e.hi = (e.lo + e.hi) / 2;
      return e;
    };
    float a = Coord(c), b = Coord(c);
    switch (op) {
      case 0: r.SetCenter({a, b}); want = {{a - w / 2, a + w / 2}, {b - h / 2, b + h / 2}}; mx = std::max(mx, (double)std::fabs(a)); my = std::max(my, (double)std::fabs(b)); break;
      case 1: a = std::fabs(a); r.SetWidth(a); want.x = {cx - a / 2.0, cx + a / 2.0}; ky = true; mx = std::max(mx, (double)a); break;
      case 2: b = std::fabs(b); r.SetHeight(b); want.y = {cy - b / 2.0, cy + b / 2.0}; kx = true; my = std::max(my, (double)b); break;
      case 3: r.Offset(a); want = {grow(m.x, a), grow(m.y, a)}; mx += std::fabs((double)a); my += std::fabs((double)a); break;
      case 4: r.Offset(a, b); want = {grow(m.x, a), grow(m.y, b)}; mx += std::fabs((double)a); my += std::fabs((double)b); break;
      case 5: a = std::fabs(a); r.Scale(a); want = {grow(m.x, (a - 1.0) * w / 2), grow(m.y, (a - 1.0) * h / 2)}; mx += (a + 1.0) * w / 2; my += (a + 1.0) * h / 2; break;
      case 6: a = std::fabs(a); b = std::fabs(b); r.Scale(a, b); want = {grow(m.x, (a - 1.0) * w / 2), grow(m.y, (b - 1.0) * h / 2)}; mx += (a + 1.0) * w / 2; my += (b + 1.0) * h / 2; break;
      case 7: r.Translate({a, b}); want = {{m.x.lo + a, m.x.hi + a}, {m.y.lo + b, m.y.hi + b}}; mx += std::fabs((double)a); my += std::fabs((double)b); break;
      case 8: {
        Point p{a, b};
        r.Join(p);
        PROP(r.XMin() == std::min(before.XMin(), a) && r.XMax() == std::max(before.XMax(), a) && r.YMin() == std::min(before.YMin(), b) && r.YMax() == std::max(before.YMax(), b), "join-point", before, p, r);
        want = Of(r);
        break;
      }
      case 9: {
        Rect q = GenRect(c);
        r.Join(q);
        PROP(r.XMin() == std::min(before.XMin(), q.XMin()) && r.XMax() == std::max(before.XMax(), q.XMax()) && r.YMin() == std::min(before.YMin(), q.YMin()) && r.YMax() == std::max(before.YMax(), q.YMax()), "join-rect", before, q, r);
        want = Of(r);
        break;
      }
      case 10: r.ResizeSettingXMinTo(a); PROP(r.XMin() == a && r.XMax() == std::max(a, before.XMax()), "resize-x-min", before, a, r); want.x = Of(r).x; ky = true; break;
      case 11: r.ResizeSettingYMinTo(a); PROP(r.YMin() == a && r.YMax() == std::max(a, before.YMax()), "resize-y-min", before, a, r); want.y = Of(r).y; kx = true; break;
      case 12: r.ResizeSettingXMaxTo(a); PROP(r.XMax() == a && r.XMin() == std::min(a, before.XMin()), "resize-x-max", before, a, r); want.x = Of(r).x; ky = true; break;
      case 13: r.ResizeSettingYMaxTo(a); PROP(r.YMax() == a && r.YMin() == std::min(a, before.YMin()), "resize-y-max", before, a, r); want.y = Of(r).y; kx = true; break;
      case 14: {
        bool mn = c.Bool();
        if (mn) r.TranslateSettingXMinTo(a); else r.TranslateSettingXMaxTo(a);
        want.x = mn ? D{a, a + w} : D{a - w, a};
        mx = 2 * mx + std::fabs((double)a);
        ky = true;
        break;
      }
      case 15: {
        bool mn = c.Bool();
        if (mn) r.TranslateSettingYMinTo(a); else r.TranslateSettingYMaxTo(a);
        want.y = mn ? D{a, a + h} : D{a - h, a};
        my = 2 * my + std::fabs((double)a);
        kx = true;
        break;
      }
      default: {
        Rect copy = r;
        copy.Translate({1, 1});
        r = copy;
        r.Translate({-1, -1});
        want = m;
        mx += 1; my += 1;
        break;
      }
    }
    c.Note("op ", op, " (", a, ", ", b, ") -> ", r);
    if ((op == 5 || op == 6) && ((w > 0 && w < 1e-36) || (h > 0 && h < 1e-36))) break;  // halving a denormal rounds
    // past the greatest float the results are infinite or undefined: the history ends there
    if (mx > kMax * 0.49 || my > kMax * 0.49) {
      bool pure = op == 1 || op == 2 || op == 5 || op == 6;
      bool fits = std::max({Mag(want.x), Mag(want.y), mx, my}) < kMax * 0.99;
      if (!(pure && fits)) break;
    }
    static const char* kTag[] = {"set-center", "set-width", "set-height", "offset", "offset-two", "scale", "scale-two", "translate", "join-point", "join-rect", "resize-x-min", "resize-y-min", "resize-x-max", "resize-y-max", "translate-setting-x", "translate-setting-y", "copy"};
    CmpD(kTag[op], r.XMin(), r.XMax(), want.x, mx);
    CmpD(kTag[op], r.YMin(), r.YMax(), want.y, my);
    if (kx) PROP(r.XMin() == before.XMin() && r.XMax() == before.XMax(), "other-extent-kept", kTag[op], before, r);
    if (ky) PROP(r.YMin() == before.YMin() && r.YMax() == before.YMax(), "other-extent-kept", kTag[op], before, r);
    if (!std::isfinite(r.XMin() + r.XMax() + r.YMin() + r.YMax())) break;
  }
  c.NonTrivial(kinds.size() >= 3);
}

PBT(aspect_ratio, 3, "width and height are not zero") {
  Rect r = GenRect(c);
  if (c.Chance(3, 4)) r = Rect::FromTwoPoints({c.Moderate(), c.Moderate()}, {c.Moderate(), c.Moderate()});
  if (c.Chance(1, 8)) r.ResizeSettingYMaxTo(r.YMin());
  float ar = std::fabs(c.Chance(1, 3) ? c.AnyFinite() : c.Chance(1, 4) && r.Height() != 0 ? c.Near(r.AspectRatio()) : c.Moderate(10));
  double w = (double)r.XMax() - r.XMin(), h = (double)r.YMax() - r.YMin();
  double mag = std::max(Mag({r.XMin(), r.XMax()}), Mag({r.YMin(), r.YMax()}));
  c.Note(r, " aspect ratio ", ar);
  c.NonTrivial(w > 0 && h > 0);
  c.Label("flat", h == 0);
  double k = ar;
  if (h * k > kMax * 0.4 || (k > 0 && w / k > kMax * 0.4) || mag > kMax * 0.4) throw pbt::Discard{};
  // quotients and products below the smallest normal number lose their digits
  if ((k > 0 && ((h > 0 && h * k < 1e-36) || (w > 0 && w / k < 1e-36) || (h > 0 && w > 0 && (w / h < 1e-36 || w / h > 1e36)))) || (h > 0 && h < 1e-36) || (w > 0 && w < 1e-36)) throw pbt::Discard{};
  auto check = [&](const Rect& q, double ew, double eh, const char* tag) {
    double m = std::max({mag, ew, eh});
    Cmp(tag, q.Width(), ew, m);
    Cmp(tag, q.Height(), eh, m);
    Cmp(tag, ((double)q.XMin() + q.XMax()) / 2, ((double)r.XMin() + r.XMax()) / 2, m);
    Cmp(tag, ((double)q.YMin() + q.YMax()) / 2, ((double)r.YMin() + r.YMax()) / 2, m);
  };
  if (k > 0) {
    Rect q = r.ContainingRectWithAspectRatio(ar);
    bool wide = k * h > w;
    check(q, wide ? k * h : w, wide ? h : w / k, "containing-rect");
    double m = std::max({mag, k * h, w / k}) * 4 * kEps + 1e-44;
    PROP(q.XMin() <= r.XMin() + m && q.XMax() >= r.XMax() - m && q.YMin() <= r.YMin() + m && q.YMax() >= r.YMax() - m, "containing-rect-contains", r, q);
  }
  Rect q = r.InteriorRectWithAspectRatio(ar);
  bool wide = k * h > w;
  check(q, wide ? w : k * h, wide ? w / k : h, "interior-rect");
  double m = mag * 4 * kEps + 1e-44;
  PROP(q.XMin() >= r.XMin() - m && q.XMax() <= r.XMax() + m && q.YMin() >= r.YMin() - m && q.YMax() <= r.YMax() + m, "interior-rect-inside", r, q);
}

PBT(envelope, 4, "at least three objects of two kinds") {
  Envelope e;
  std::optional<M> m;
  std::set<int> kinds;
  int objects = 0;
  auto add = [&](Point p) {
    if (!m) m = M{{p.x, p.x}, {p.y, p.y}};
    else m = M{{std::min(m->x.lo, (double)p.x), std::max(m->x.hi, (double)p.x)}, {std::min(m->y.lo, (double)p.y), std::max(m->y.hi, (double)p.y)}};
  };
  auto same = [&](const Envelope& g, const std::optional<M>& w, const char* tag) {
    PROP(g.IsEmpty() == !w.has_value() && g.AsRect().has_value() == w.has_value(), "envelope-emptiness", tag);
    if (!w) return;
    const Rect& r = *g.AsRect();
    PROP(r.XMin() == w->x.lo && r.XMax() == w->x.hi && r.YMin() == w->y.lo && r.YMax() == w->y.hi, tag, r, " expected ", w->x.lo, " ", w->x.hi, " ", w->y.lo, " ", w->y.hi);
  };
  same(e, m, "new-envelope");
  int n = c.Len(0, 7);
  for (int i = 0; i < n; ++i) {
    int op = c.Weighted({4, 3, 3, 3, 3, 2, 2, 2, 1});
    kinds.insert(op);
    Envelope before = e;
    auto before_m = m;
    bool fresh = false;
    Envelope f;  // the same object through the matching constructor
    switch (op) {
      case 0: { Point p = GenPoint(c); c.Note("point ", p); e.Add(p); add(p); f = Envelope(p); fresh = true; break; }
      case 1: { Segment s{GenPoint(c), GenPoint(c)}; c.Note(s); e.Add(s); add(s.start); add(s.end); f = Envelope(s); fresh = true; break; }
      case 2: { Triangle t{GenPoint(c), GenPoint(c), GenPoint(c)}; c.Note(t); e.Add(t); add(t.p0); add(t.p1); add(t.p2); f = Envelope(t); fresh = true; break; }
      case 3: { Rect r = GenRect(c); c.Note(r); e.Add(r); for (Point p : r.Corners()) add(p); f = Envelope(r); fresh = true; break; }
      case 4: {
        Quad q = Quad::FromCenterDimensionsRotationAndShear({c.Moderate(), c.Moderate()}, c.Moderate(), c.Moderate(), ink::Angle::Radians(c.Moderate(7)), c.Moderate(3));
        c.Note(q);
        e.Add(q);
        for (Point p : q.Corners()) add(p);
        f = Envelope(q);
        fresh = true;
        break;
      }
      case 5: {
        std::vector<Point> v;
        for (int k = c.Len(0, 4); k > 0; --k) v.push_back(GenPoint(c));
        c.Note("container of ", v.size(), " points");
        if (c.Bool()) e.Add(v); else e.Add(v.begin(), v.end());
        for (Point p : v) add(p);
        f = c.Bool() ? Envelope(v) : Envelope(v.begin(), v.end());
        fresh = true;
        break;
      }
      case 6: {
        std::list<Segment> v;
        for (int k = c.Len(0, 3); k > 0; --k) v.push_back({GenPoint(c), GenPoint(c)});
        c.Note("container of ", v.size(), " segments");
        if (c.Bool()) e.Add(v); else e.Add(v.begin(), v.end());
        for (auto& s : v) { add(s.start); add(s.end); }
        break;
      }
      case 7: {
        Envelope o;
        for (int k = c.Len(0, 3); k > 0; --k) { Point p = GenPoint(c); o.Add(p); add(p); }
        c.Note("envelope");
        e.Add(o);
        break;
      }
      default: e.Reset(); m.reset(); c.Note("reset"); objects = -1; break;
    }
    ++objects;
    same(e, m, "envelope-after-add");
    if (fresh) {
      Envelope g = before;
      g.Add(f);
      same(g, m, "add-envelope-same-as-object");
    }
    same(before, before_m, "copy-unaffected");
  }
  c.NonTrivial(objects >= 3 && kinds.size() >= 2);
}

PBT(fatal_checks, 1, "the whole case") {
  if (!c.Chance(1, 1500)) throw pbt::Discard{};
  Rect r = Rect::FromTwoPoints({c.Moderate(), c.Moderate()}, {c.Moderate(), c.Moderate()});
  float neg = -std::fabs(c.Moderate());
  ASSUME(neg < 0);
  c.NonTrivial();
  int k = (int)c.Choice(6);
  c.Note(r, " ", neg, " call ", k);
  PROP(pbt::Dies([&] {
    switch (k) {
      case 0: Rect::FromCenterAndDimensions({0, 0}, neg, 1); break;
      case 1: Rect::FromCenterAndDimensions({0, 0}, 1, neg); break;
      case 2: r.SetWidth(neg); break;
      case 3: r.SetHeight(neg); break;
      case 4: r.Scale(1, neg); break;
      case 5: r.ContainingRectWithAspectRatio(c.Bool() ? neg : 0.f); break;
      default: r.InteriorRectWithAspectRatio(neg); break;
    }
  }), "invalid-argument-is-fatal", r, neg, k);
}
