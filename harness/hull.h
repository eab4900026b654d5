// Convex hulls of circles in double precision, by their support function.
#pragma once
#include <algorithm>
#include <cmath>
#include <numbers>
#include <vector>

#include "ink/geometry/point.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/brush_tip_state.h"

namespace hull {
inline constexpr double kPi = std::numbers::pi;
struct Disk { double x, y, r; };
using Hull = std::vector<Disk>;
inline double Support(const Hull& h, double ux, double uy) {
  double m = -INFINITY;
  for (const Disk& d : h) m = std::max(m, d.x * ux + d.y * uy + d.r);
  return m;
}
struct U { double x, y; };
// Directions in which the farthest disk changes: where two disks reach equally far.
inline void Breaks(const Hull& h, std::vector<U>& out) {
  for (size_t i = 0; i < h.size(); ++i)
    for (size_t j = i + 1; j < h.size(); ++j) {
      double dx = h[i].x - h[j].x, dy = h[i].y - h[j].y, d = std::hypot(dx, dy), k = h[j].r - h[i].r;
      if (d == 0 || std::abs(k) > d) continue;
      double cs = k / d, sn = std::sqrt(std::max(0.0, 1 - cs * cs));
      dx /= d, dy /= d;
      out.push_back({dx * cs - dy * sn, dy * cs + dx * sn});
      out.push_back({dx * cs + dy * sn, dy * cs - dx * sn});
    }
}
// The least by which `a` reaches farther than `b` in any direction: how deep b lies inside a, negative where it sticks out.
inline double Depth(const Hull& a, const Hull& b) {
  std::vector<U> u{{1, 0}};
  Breaks(a, u);
  Breaks(b, u);
  for (const Disk& i : a)
    for (const Disk& j : b) {
      double dx = j.x - i.x, dy = j.y - i.y, d = std::hypot(dx, dy);
      if (d > 0) u.push_back({dx / d, dy / d}), u.push_back({-dx / d, -dy / d});
    }
  double m = INFINITY;
  for (const U& v : u) m = std::min(m, Support(a, v.x, v.y) - Support(b, v.x, v.y));
  return m;
}
inline double Depth(const Hull& a, double x, double y) { return Depth(a, Hull{{x, y, 0}}); }
inline Hull Join(const Hull& a, const Hull& b) {
  Hull h = a;
  h.insert(h.end(), b.begin(), b.end());
  return h;
}
inline Hull Of(const ink::strokes_internal::BrushTipShape& s) {
  Hull h;
  for (const auto& c : s.PerimeterCircles()) h.push_back({c.Center().x, c.Center().y, c.Radius()});
  return h;
}
// The shape a tip state describes, before anything too small is dropped: a box with rounded corners, pinched below, slanted, turned and moved.
inline Hull Ideal(const ink::strokes_internal::BrushTipState& s) {
  double hw = s.width / 2.0, hh = s.height / 2.0, r = s.percent_radius * std::min(hw, hh), x = hw - r, y = hh - r, xp = (1.0 - s.pinch) * x;
  double sl = s.slant.ValueInRadians(), ro = s.rotation.ValueInRadians();
  Hull h;
  for (auto [px, py] : {std::pair{x, y}, {-x, y}, {-xp, -y}, {xp, -y}}) {
    double qx = px - py * std::sin(sl), qy = py * std::cos(sl);
    h.push_back({s.position.x + qx * std::cos(ro) - qy * std::sin(ro), s.position.y + qx * std::sin(ro) + qy * std::cos(ro), r});
  }
  return h;
}
inline double Size(const Hull& h) {
  double m = 0;
  for (const Disk& d : h) m = std::max({m, std::abs(d.x) + d.r, std::abs(d.y) + d.r});
  return m;
}
inline double Perimeter(const Hull& h) {
  double m = 0;
  for (int k = 0; k < 64; ++k) m += Support(h, std::cos(k * kPi / 32), std::sin(k * kPi / 32)) * kPi / 32;
  return m;
}
// A random point of the hull: a mixture of points of its disks.
template <typename C> U PointOf(const Hull& h, C& c) {
  double x = 0, y = 0, w = 0;
  for (const Disk& d : h) {
    double k = c.Chance(1, 3) ? 0 : c.Unit(), t = c.Unit() * 2 * kPi, r = d.r * std::sqrt(c.Unit());
    x += k * (d.x + r * std::cos(t)), y += k * (d.y + r * std::sin(t)), w += k;
  }
  if (w == 0) return {h[0].x, h[0].y};
  return {x / w, y / w};
}
// Turns a closed polygon makes around a point, and the distance to its boundary.
inline int Winding(const std::vector<ink::Point>& g, double x, double y) {
  int w = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    const ink::Point &a = g[i], &b = g[(i + 1) % g.size()];
    double cr = ((double)b.x - a.x) * (y - a.y) - (x - a.x) * ((double)b.y - a.y);
    if (a.y <= y) { if (b.y > y && cr > 0) ++w; }
    else if (b.y <= y && cr < 0) --w;
  }
  return w;
}
inline double ToBoundary(const std::vector<ink::Point>& g, double x, double y) {
  double m = INFINITY;
  for (size_t i = 0; i < g.size(); ++i) {
    const ink::Point &a = g[i], &b = g[(i + 1) % g.size()];
    double dx = (double)b.x - a.x, dy = (double)b.y - a.y, q = dx * dx + dy * dy, t = q == 0 ? 0 : std::clamp(((x - a.x) * dx + (y - a.y) * dy) / q, 0.0, 1.0);
    m = std::min(m, std::hypot(x - a.x - t * dx, y - a.y - t * dy));
  }
  return m;
}
}  // namespace hull
