// Convex polygons (points and segments included) in double precision: exact on small lattices.
#pragma once
#include <algorithm>
#include <cmath>
#include <vector>

#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"

namespace poly {
struct P { double x, y; };
inline bool operator==(P a, P b) { return a.x == b.x && a.y == b.y; }
using Poly = std::vector<P>;
inline double Cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
inline double Dot(P a, P b, P c) { return (b.x - a.x) * (c.x - a.x) + (b.y - a.y) * (c.y - a.y); }
inline double Dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }
inline bool OnSegment(P p, P a, P b) {
  return Cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline int Sgn(double v) { return (v > 0) - (v < 0); }
inline bool SegSeg(P a, P b, P c, P d) {
  int s1 = Sgn(Cross(a, b, c)), s2 = Sgn(Cross(a, b, d)), s3 = Sgn(Cross(c, d, a)), s4 = Sgn(Cross(c, d, b));
  if (s1 * s2 < 0 && s3 * s4 < 0) return true;
  return OnSegment(c, a, b) || OnSegment(d, a, b) || OnSegment(a, c, d) || OnSegment(b, c, d);
}
inline double PointSeg(P p, P a, P b) {
  double m = Dot(a, b, b);
  if (m == 0) return Dist(p, a);
  double t = std::clamp(Dot(a, b, p) / m, 0.0, 1.0);
  return Dist(p, {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)});
}
inline bool Contains(const Poly& g, P p) {
  size_t n = g.size();
  for (size_t i = 0; i < n; ++i) if (OnSegment(p, g[i], g[(i + 1) % n])) return true;
  bool pos = false, neg = false;
  for (size_t i = 0; i < n; ++i) {
    double k = Cross(g[i], g[(i + 1) % n], p);
    pos |= k > 0;
    neg |= k < 0;
    if (k == 0 && !(g[i] == g[(i + 1) % n])) return false;  // on the line of an edge but not on the boundary
  }
  return pos != neg;
}
inline bool Intersects(const Poly& a, const Poly& b) {
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j)
      if (SegSeg(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return true;
  return Contains(a, b[0]) || Contains(b, a[0]);
}
inline double Distance(const Poly& a, const Poly& b) {
  if (Intersects(a, b)) return 0;
  double d = INFINITY;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) {
      d = std::min(d, PointSeg(a[i], b[j], b[(j + 1) % b.size()]));
      d = std::min(d, PointSeg(b[j], a[i], a[(i + 1) % a.size()]));
    }
  return d;
}
inline double Area(const Poly& a) {
  double s = 0;
  for (size_t i = 1; i + 1 < a.size(); ++i) s += Cross(a[0], a[i], a[i + 1]);
  return s / 2;
}
// They still intersect after moving one of them by tol in any of sixteen directions.
inline bool DeepIntersects(const Poly& a, const Poly& b, double tol) {
  for (int i = 0; i < 16; ++i) {
    double t = i * 0.39269908169872414, dx = tol * std::cos(t), dy = tol * std::sin(t);
    Poly m = b;
    for (P& p : m) p.x += dx, p.y += dy;
    if (!Intersects(a, m)) return false;
  }
  return true;
}
inline P Of(ink::Point p) { return {p.x, p.y}; }
inline Poly Make(ink::Point p) { return {Of(p)}; }
inline Poly Make(const ink::Segment& s) { return {Of(s.start), Of(s.end)}; }
inline Poly Make(const ink::Triangle& t) { return {Of(t.p0), Of(t.p1), Of(t.p2)}; }
inline Poly Make(const ink::Rect& r) { return {{r.XMin(), r.YMin()}, {r.XMax(), r.YMin()}, {r.XMax(), r.YMax()}, {r.XMin(), r.YMax()}}; }
// corners from the published definition of the parameters, not from Quad::Corners
inline Poly Make(const ink::Quad& q) {
  double t = q.Rotation().ValueInRadians(), cs = std::cos(t), sn = std::sin(t), w = q.Width() / 2.0, h = q.Height() / 2.0, s = q.ShearFactor(), cx = q.Center().x, cy = q.Center().y;
  double ux = w * cs, uy = w * sn, vx = h * (s * cs - sn), vy = h * (s * sn + cs);
  return {{cx - ux - vx, cy - uy - vy}, {cx + ux - vx, cy + uy - vy}, {cx + ux + vx, cy + uy + vy}, {cx - ux + vx, cy - uy + vy}};
}
inline double Extent(const Poly& a) {
  double m = 0;
  for (P p : a) m = std::max({m, std::fabs(p.x), std::fabs(p.y)});
  return m;
}
}  // namespace poly
