// The area a stroke's mesh covers: that swept by its tip shapes, and nothing else.
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/hull.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_extrusion.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/constrain_brush_tip_extrusion.h"
#include "ink/strokes/internal/stroke_vertex.h"

using hull::Hull;
using ink::Angle;
using ink::MutableMesh;
using ink::Point;
using ink::strokes_internal::BrushTipExtruder;
using ink::strokes_internal::BrushTipExtrusion;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::ConstrainBrushTipExtrusion;
using ink::strokes_internal::StrokeShapeUpdate;
using ink::strokes_internal::StrokeVertex;
using pbt::Ctx;
using Result = ink::strokes_internal::ConstrainedBrushTipExtrusion::ResultType;

namespace {
// Which tip shapes take part, as documented: those inside the last one do not, those around all of a part replace it, those around some of it start a new part.
struct Model {
  float eps;
  std::vector<BrushTipExtrusion> at;
  void Break() { if (!at.empty() && !at.back().IsBreakPoint()) at.push_back(BrushTipExtrusion(BrushTipExtrusion::BreakPoint{})); }
  void Add(const BrushTipState& s, bool last) {
    if (s.width < eps && s.height < eps) return Break();
    BrushTipExtrusion n(s, eps);
    if (at.empty() || at.back().IsBreakPoint()) return at.push_back(n);
    auto r = ConstrainBrushTipExtrusion(at.back(), n, eps, 7);
    switch (r.result_type) {
      case Result::kProposedExtrusionIsValid: at.push_back(n); break;
      case Result::kConstrainedExtrusionFound: if (last || r.lerp_amount >= 0.1f) at.push_back(r.extrusion); break;
      case Result::kProposedExtrusionContainsLastExtrusion: {
        size_t k = at.size();
        while (k > 0 && !at[k - 1].IsBreakPoint() && (k == at.size() || n.GetShape().Contains(at[k - 1].GetShape()))) --k;
        if (k == 0 || at[k - 1].IsBreakPoint()) at.erase(at.begin() + k, at.end());
        else Break();
        at.push_back(n);
        break;
      }
      default: break;
    }
  }
};
struct Piece { Hull hull; int part; };
std::vector<Piece> Swept(const Model& m, std::vector<std::pair<size_t, size_t>>* parts) {
  std::vector<Piece> r;
  for (size_t i = 0; i < m.at.size();) {
    if (m.at[i].IsBreakPoint()) { ++i; continue; }
    size_t j = i;
    while (j < m.at.size() && !m.at[j].IsBreakPoint()) ++j;
    if (parts) parts->push_back({i, j});
    if (j == i + 1) r.push_back({hull::Of(m.at[i].GetShape()), (int)i});
    for (size_t k = i; k + 1 < j; ++k) r.push_back({hull::Join(hull::Of(m.at[k].GetShape()), hull::Of(m.at[k + 1].GetShape())), (int)i});
    i = j;
  }
  return r;
}

struct Gen {
  Ctx& c;
  float size, eps;
  int shape, path;
  BrushTipState s{};
  double heading;
  Gen(Ctx& c, bool smooth) : c(c) {
    size = c.PickOf<float>({10, 1, 100});
    eps = size * c.PickOf<float>({0.01f, 0.001f, 0.05f});
    shape = smooth ? (c.Bool() ? 0 : 4) : c.Int(0, 3);
    path = smooth ? 0 : c.Int(0, 3);
    heading = c.Unit() * 2 * hull::kPi;
    s.width = c.UniformF(0.2f, 1) * size;
    s.height = c.Bool() ? s.width : c.UniformF(0.2f, 1) * size;
    s.percent_radius = c.Bool() ? c.PickOf<float>({1, 0, 0.5f}) : c.UniformF(0, 1);
    s.rotation = Angle::Radians(c.UniformF(-3.2f, 3.2f));
    if (c.Chance(1, 3)) s.slant = Angle::Radians(c.UniformF(-1, 1));
    if (c.Chance(1, 4)) s.pinch = c.UniformF(0, 1);
    c.Note("size ", size, " epsilon ", eps, " shape mode ", shape, " path mode ", path, " round ", s.percent_radius, " slant ", s.slant.ValueInRadians(), " pinch ", s.pinch);
  }
  BrushTipState Next(bool first) {
    if (!first) {
      double step = size * (path == 3 ? c.Uniform(0, 2) : c.PickOf<double>({0.2, 0.05, 0.6, 1.5}) * c.Uniform(0.5, 1.5));
      if (path == 0) heading += c.Uniform(-0.3, 0.3);
      if (path == 1) heading += c.Chance(1, 4) ? c.Uniform(-3, 3) : 0;
      if (path == 2) heading += c.Uniform(-1.5, 1.5);
      if (path == 3) heading = c.Unit() * 2 * hull::kPi;
      s.position += ink::Vec{(float)(step * std::cos(heading)), (float)(step * std::sin(heading))};
      if (shape == 1 || shape == 2) {
        float f = shape == 1 ? 0.1f : 0.4f;
        s.width *= 1 + c.UniformF(-f, f);
        s.height *= 1 + c.UniformF(-f, f);
        s.rotation += Angle::Radians(c.UniformF(-f, f));
      }
      if (shape == 4) {
        float f = (float)(0.2 * step);
        s.width = std::clamp(s.width + c.UniformF(-f, f), 0.1f * size, size);
        s.height = std::clamp(s.height + c.UniformF(-f, f), 0.1f * size, size);
        s.rotation += Angle::Radians(c.UniformF(-f, f) / size);
        s.percent_radius = std::clamp(s.percent_radius + c.UniformF(-f, f) / size, 0.f, 1.f);
      }
      if (shape == 3) {
        s.width = c.Chance(1, 10) ? 0 : c.UniformF(0.2f, 1) * size;
        s.height = c.Chance(1, 3) ? s.width : c.Chance(1, 10) ? 0 : c.UniformF(0.2f, 1) * size;
        s.rotation = Angle::Radians(c.UniformF(-3.2f, 3.2f));
      }
    }
    c.Note("tip at ", pbt::Show(s.position), " ", s.width, "x", s.height, " turn ", s.rotation.ValueInRadians());
    return s;
  }
};

void Run(Ctx& c, bool smooth) {
  Gen g(c, smooth);
  MutableMesh mesh(StrokeVertex::FullMeshFormat());
  BrushTipExtruder x;
  x.StartStroke(g.eps, false, mesh);
  Model fixed{g.eps}, now{g.eps};
  int steps = c.Int(1, 4);
  bool first = true;
  for (int k = 0; k < steps; ++k) {
    std::vector<BrushTipState> f(c.Len(0, 8)), v(c.Chance(1, 3) ? c.Len(0, 4) : 0);
    c.Note("fixed ", f.size(), " volatile ", v.size());
    for (auto& s : f) s = g.Next(first), first = false;
    BrushTipState kept = g.s;
    double h = g.heading;
    for (auto& s : v) s = g.Next(first);
    g.s = kept, g.heading = h;
    x.ExtendStroke(f, v);
    for (size_t i = 0; i < f.size(); ++i) fixed.Add(f[i], v.empty() && i + 1 == f.size());
    now = fixed;
    for (size_t i = 0; i < v.size(); ++i) now.Add(v[i], i + 1 == v.size());
  }
  std::vector<std::pair<size_t, size_t>> parts;
  std::vector<Piece> swept = Swept(now, &parts);
  c.Label("parts", parts.size() > 1);
  for (auto [i, j] : parts) c.NonTrivial(j - i >= 3);
  if (swept.empty()) {
    PROP(mesh.TriangleCount() == 0, "nothing", mesh.TriangleCount(), " triangles without any shape");
    return;
  }
  double scale = 0;
  for (auto& p : swept) scale = std::max(scale, hull::Size(p.hull));
  struct T { double x[3], y[3]; };
  std::vector<T> tri;
  for (uint32_t k = 0; k < mesh.TriangleCount(); ++k) {
    auto ix = mesh.TriangleIndices(k);
    T t;
    for (int j = 0; j < 3; ++j) { Point p = mesh.VertexPosition(ix[j]); t.x[j] = p.x, t.y[j] = p.y; }
    tri.push_back(t);
  }
  auto in = [&](double px, double py) {
    for (const T& t : tri) {
      bool pos = true;
      for (int j = 0; j < 3 && pos; ++j) {
        int n = (j + 1) % 3;
        double dx = t.x[n] - t.x[j], dy = t.y[n] - t.y[j];
        pos = dx * (py - t.y[j]) - dy * (px - t.x[j]) >= -1e-6 * g.size * std::hypot(dx, dy);
      }
      if (pos) return true;
    }
    return false;
  };
  if (!smooth) {
    // Sharp turns may fold the mesh over or cut corners, but not stray far from the hull of all shapes.
    Hull all;
    double widest = 0;
    for (auto& e : now.at) if (!e.IsBreakPoint()) widest = std::max<double>({widest, e.GetState().width, e.GetState().height});
    for (auto& p : swept) all = hull::Join(all, p.hull);
    for (uint32_t k = 0; k < mesh.VertexCount(); ++k) {
      Point p = mesh.VertexPosition(k);
      double d = hull::Depth(all, p.x, p.y);
      PROP(d > -1.5 * widest - 1e-5 * scale, "far", "vertex ", pbt::Show(p), " lies ", -d, " outside of the hull of all tip shapes");
    }
    return;
  }
  for (int k = 0; k < 40; ++k) {
    const Piece& p = swept[c.Choice(swept.size() - 1)];
    hull::U u = hull::PointOf(p.hull, c);
    double d = hull::Depth(p.hull, u.x, u.y);
    if (d <= 0 || in(u.x, u.y)) continue;
    PROP(d < 2 * g.eps + 0.02 * g.size, "gap", "point (", u.x, ", ", u.y, "), ", d, " inside of the area the tip sweeps, is in none of ", tri.size(), " triangles");
  }
  for (int k = 0; k < 40 && !tri.empty(); ++k) {
    const T& t = tri[c.Choice(tri.size() - 1)];
    double a = c.Unit(), b = c.Unit();
    if (a + b > 1) a = 1 - a, b = 1 - b;
    double px = t.x[0] + a * (t.x[1] - t.x[0]) + b * (t.x[2] - t.x[0]), py = t.y[0] + a * (t.y[1] - t.y[0]) + b * (t.y[2] - t.y[0]);
    double m = -INFINITY;
    for (auto& p : swept) m = std::max(m, hull::Depth(p.hull, px, py));
    PROP(m > -(2 * g.eps + 0.02 * g.size), "beyond", "point (", px, ", ", py, ") of a triangle lies ", -m, " outside of the area the tip sweeps");
  }
}
PBT(Smooth, 3, "three or more tip shapes in a part") { Run(c, true); }
PBT(Any, 1, "three or more tip shapes in a part") { Run(c, false); }
}  // namespace
