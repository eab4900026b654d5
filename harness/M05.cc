// Triangulating the inside of outlines.
#include <algorithm>
#include <cmath>
#include <set>
#include <utility>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/internal/generic_tessellator.h"
#include "ink/geometry/internal/point_tessellation_helper.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/point.h"
#include "ink/geometry/tessellator.h"

using ink::Mesh;
using ink::Point;
using pbt::Ctx;
using poly::P;

namespace {
struct V { float x, y; int tag; std::vector<uint32_t> near; size_t known; };
struct Helper {
  using VertexType = V;
  static float GetX(const V& v) { return v.x; }
  static float GetY(const V& v) { return v.y; }
  static constexpr size_t GetXOffSetBytes() { return 0; }
  static constexpr size_t GetYOffSetBytes() { return sizeof(float); }
  static V CreateVertex(float x, float y) { return {x, y, -1, {}, 0}; }
  static void PopulateNonPositionAttributes(absl::Span<const V> vertices, absl::Span<const uint32_t> n, V& dst) {
    dst.tag = -2;
    dst.near.assign(n.begin(), n.end());
    dst.known = vertices.size();
  }
};

std::vector<Point> Outline(Ctx& c, bool closed_ok) {
  int kind = c.Weighted({3, 3, 2, 1});
  int n = kind == 2 ? c.Int(3, 9) : c.Len(0, 12);
  float unit = c.PickOf<float>({1, 0.125f, 37, 1000});
  std::vector<Point> p;
  Point at{c.Signed(-5, 5) * unit, c.Signed(-5, 5) * unit};
  for (int i = 0; i < n; ++i) {
    if (kind == 0) at = {c.Signed(-6, 6) * unit, c.Signed(-6, 6) * unit};
    if (kind == 1) at = {c.UniformF(-6, 6) * unit, c.UniformF(-6, 6) * unit};
    if (kind == 2) { double a = 2 * M_PI * i * c.PickOf({1, 2, 3}) / n; at = {(float)(5 * unit * std::cos(a)), (float)(5 * unit * std::sin(a))}; }
    if (kind == 3) at = {(float)i * unit, (float)c.Signed(0, 1) * unit};
    // On a grid, so that no edges are nearly but not quite level.
    at = {std::round(at.x / unit * 256) * (unit / 256), std::round(at.y / unit * 256) * (unit / 256)};
    p.push_back(at);
    if (c.Chance(1, 8)) p.push_back(at);
  }
  if (closed_ok && !p.empty() && c.Chance(1, 4)) p.push_back(p[0]);
  return p;
}
int Winding(const std::vector<std::vector<Point>>& g, double x, double y) {
  int w = 0;
  for (auto& e : g) for (size_t i = 0; i < e.size(); ++i) {
    Point a = e[i], b = e[(i + 1) % e.size()];
    if ((a.y <= y) == (b.y <= y)) continue;
    double t = (y - a.y) / ((double)b.y - a.y);
    if (a.x + t * ((double)b.x - a.x) > x) w += b.y > a.y ? 1 : -1;
  }
  return w;
}
double ToEdge(const std::vector<std::vector<Point>>& g, double x, double y) {
  double d = INFINITY;
  for (auto& e : g) for (size_t i = 0; i < e.size(); ++i) d = std::min(d, poly::PointSeg({x, y}, poly::Of(e[i]), poly::Of(e[(i + 1) % e.size()])));
  return d;
}
bool Collinear(const std::vector<std::vector<Point>>& g) {
  std::vector<P> all;
  for (auto& e : g) for (Point p : e) all.push_back(poly::Of(p));
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) if (poly::Cross(all[i], all[j], all[k]) != 0) return false;
  return true;
}
bool Inside(TessWindingRule r, int w) {
  switch (r) {
    case TESS_WINDING_ODD: return w & 1;
    case TESS_WINDING_NONZERO: return w != 0;
    default: return std::abs(w) >= 2;
  }
}
struct Tri { P a, b, c; };
// Samples points: those inside lie in exactly one triangle, those outside in none.
void Covers(Ctx& c, const std::vector<std::vector<Point>>& g, const std::vector<Tri>& tri, TessWindingRule rule) {
  double size = 0;
  std::vector<P> all;
  for (auto& e : g) for (Point p : e) all.push_back(poly::Of(p));
  for (P p : all) size = std::max({size, std::abs(p.x - all[0].x), std::abs(p.y - all[0].y)});
  double slack = 1e-5 * size + 1e-6 * (std::abs(all[0].x) + std::abs(all[0].y));
  int in = 0, out = 0;
  for (int k = 0; k < 60; ++k) {
    P a = all[c.Choice(all.size() - 1)], b = all[c.Choice(all.size() - 1)], d = all[c.Choice(all.size() - 1)];
    double u = c.Uniform(-0.2, 1), v = c.Uniform(-0.2, 1), x = a.x + u * (b.x - a.x) + v * (d.x - a.x), y = a.y + u * (b.y - a.y) + v * (d.y - a.y);
    if (ToEdge(g, x, y) < 4 * slack) continue;
    bool want = Inside(rule, Winding(g, x, y));
    int loose = 0, tight = 0;
    for (auto& t : tri) {
      double o = poly::Cross(t.a, t.b, t.c) < 0 ? -1 : 1, m = INFINITY;
      auto side = [&](P p, P q) { double l = poly::Dist(p, q); if (l > 0) m = std::min(m, o * poly::Cross(p, q, {x, y}) / l); };
      side(t.a, t.b), side(t.b, t.c), side(t.c, t.a);
      loose += m > -slack && std::min({poly::PointSeg({x, y}, t.a, t.b), poly::PointSeg({x, y}, t.b, t.c), poly::PointSeg({x, y}, t.c, t.a)}) < (m > 0 ? INFINITY : 2 * slack), tight += m > slack;
    }
    (want ? in : out)++;
    PROP((loose > 0) == want, "covered", "(", x, ", ", y, ") goes around ", Winding(g, x, y), " times and lies in ", loose, " triangles");
    PROP(tight <= 1, "overlap", "(", x, ", ", y, ") lies in ", tight, " triangles");
  }
  c.Label("inside and outside", in > 0 && out > 0);
}

PBT(Polyline, 3, "an outline with an inside") {
  std::vector<Point> p = Outline(c, true);
  if (!p.empty() && c.Chance(1, 20)) { float& v = c.Bool() ? p[c.Choice(p.size() - 1)].x : p[c.Choice(p.size() - 1)].y; v = c.PickOf<float>({NAN, INFINITY, -INFINITY}); }
  for (Point q : p) c.Note(pbt::Show(q));
  bool finite = true;
  for (Point q : p) finite &= std::isfinite(q.x) && std::isfinite(q.y);
  absl::StatusOr<Mesh> m = ink::CreateMeshFromPolyline(p);
  if (p.size() < 3 || !finite) { PROP(!m.ok(), "refused", p.size(), " points gave a mesh"); return; }
  // Values are small multiples or random, so that exact collinearity is decided by the products in double.
  if (Collinear({p})) { PROP(!m.ok(), "collinear"); return; }
  bool area = false;
  if (!m.ok()) {
    // Lines traced there and back enclose nothing.
    for (int k = 0; k < 200; ++k) {
      Point a = p[c.Choice(p.size() - 1)], b = p[c.Choice(p.size() - 1)], d = p[c.Choice(p.size() - 1)];
      double x = ((double)a.x + b.x + d.x) / 3, y = ((double)a.y + b.y + d.y) / 3;
      area |= Winding({p}, x, y) != 0 && ToEdge({p}, x, y) > 1e-3 * (std::abs(a.x - x) + std::abs(a.y - y));
    }
    PROP(!area, "failed", m.status().ToString());
    return;
  }
  c.NonTrivial();
  PROP(m->TriangleCount() > 0 && m->VertexCount() >= 3, "empty");
  PROP(m->Format() == ink::MeshFormat(), "format");
  std::vector<Tri> tri;
  for (uint32_t i = 0; i < m->TriangleCount(); ++i) {
    auto ix = m->TriangleIndices(i);
    tri.push_back({poly::Of(m->VertexPosition(ix[0])), poly::Of(m->VertexPosition(ix[1])), poly::Of(m->VertexPosition(ix[2]))});
  }
  Covers(c, {p}, tri, TESS_WINDING_NONZERO);
}

PBT(Outlines, 2, "two outlines, or new vertices at crossings") {
  std::vector<std::vector<Point>> g(c.Len(0, 3));
  std::vector<std::vector<V>> vs;
  std::vector<absl::Span<const V>> spans;
  int tag = 0;
  for (auto& e : g) {
    e = Outline(c, true);
    c.Note("outline");
    for (Point q : e) c.Note(pbt::Show(q));
    vs.emplace_back();
    for (Point q : e) vs.back().push_back({q.x, q.y, tag++, {}, 0});
  }
  for (auto& v : vs) spans.push_back(v);
  TessWindingRule rule = c.PickOf({TESS_WINDING_NONZERO, TESS_WINDING_ODD, TESS_WINDING_ABS_GEQ_TWO});
  bool one = vs.size() == 1 && c.Bool();
  if (one) rule = TESS_WINDING_NONZERO;
  c.Note("rule ", (int)rule, one ? " single" : "");
  auto r = one ? ink::geometry_internal::Tessellate<Helper>(absl::MakeConstSpan(vs[0])) : ink::geometry_internal::Tessellate<Helper>(absl::MakeConstSpan(spans), rule);
  if (g.empty() || g[0].empty()) { PROP(r.vertices.empty() && r.indices.empty(), "nothing"); return; }
  PROP(r.indices.size() % 3 == 0, "whole-triangles");
  PROP(r.vertices.size() >= (size_t)tag, "vertices-lost", r.vertices.size(), " of ", tag);
  size_t k = 0;
  for (auto& e : vs) for (auto& v : e) {
    const V& w = r.vertices[k++];
    PROP(w.x == v.x && w.y == v.y && w.tag == v.tag && w.near.empty(), "vertex-changed", k - 1);
  }
  std::set<std::pair<uint32_t, uint32_t>> edges;
  std::set<uint32_t> used;
  std::vector<Tri> tri;
  for (size_t i = 0; i < r.indices.size(); i += 3) {
    for (int j = 0; j < 3; ++j) PROP(r.indices[i + j] < r.vertices.size(), "index", r.indices[i + j], " of ", r.vertices.size());
    for (int j = 0; j < 3; ++j) {
      uint32_t a = r.indices[i + j], b = r.indices[i + (j + 1) % 3];
      edges.insert({a, b}), edges.insert({b, a}), used.insert(a);
    }
    auto p = [&](int j) { const V& v = r.vertices[r.indices[i + j]]; return P{v.x, v.y}; };
    tri.push_back({p(0), p(1), p(2)});
  }
  // Input vertices at one place stand for each other, so that neighbors are looked up by place.
  auto place = [&](uint32_t i) { return std::pair(r.vertices[i].x, r.vertices[i].y); };
  std::set<std::pair<std::pair<float, float>, std::pair<float, float>>> joined;
  for (auto [a, b] : edges) joined.insert({place(a), place(b)});
  for (size_t i = tag; i < r.vertices.size(); ++i) {
    const V& w = r.vertices[i];
    PROP(w.tag == -2 && w.near.size() == 4, "attributes", "vertex ", i);
    PROP(used.count(i), "unused", "vertex ", i);
    int found = 0;
    for (uint32_t n : w.near) if (n != (uint32_t)TESS_UNDEF) {
      PROP(n < w.known, "neighbor-range", n);
      PROP(joined.count({place(i), place(n)}), "neighbor", "vertex ", i, " shares no edge with ", n);
      ++found;
    }
    for (size_t j = 0; j < i; ++j) PROP(place(i) != place(j), "twice", "vertices ", j, " and ", i, " at one place");
    c.Label("has neighbors", found > 0);
  }
  c.NonTrivial(g.size() > 1 || r.vertices.size() > (size_t)tag);
  Covers(c, g, tri, rule);
}

using ink::geometry_internal::AdjacentTo;
using ink::geometry_internal::FindNeighbor;
using ink::geometry_internal::VertexOffset;
PBT(Neighbors, 1, "the vertex is in the neighboring triangle") {
  std::vector<TESSindex> elems;
  int n = c.Int(1, 5);
  for (int i = 0; i < n; ++i) {
    std::vector<int> ids = {0, 1, 2, 3, 4, 5, 6};
    for (int j = 0; j < 3; ++j) { int k = c.Choice(ids.size() - 1); elems.push_back(ids[k]), ids.erase(ids.begin() + k); }
    for (int j = 0; j < 3; ++j) elems.push_back(c.Bool() ? TESS_UNDEF : c.Choice(n - 1));
  }
  int e = c.Choice(n - 1), v = c.Choice(6);
  c.Note("triangle ", elems[6 * e], " ", elems[6 * e + 1], " ", elems[6 * e + 2], " vertex ", v);
  const TESSindex* t = &elems[6 * e];
  for (int j = 0; j < 3; ++j) {
    PROP(AdjacentTo(t, j, VertexOffset::kCounterClockwise) == t[(j + 1) % 3], "next");
    PROP(AdjacentTo(t, j, VertexOffset::kClockwise) == t[(j + 2) % 3], "previous");
  }
  TESSindex next = TESS_UNDEF, prev = TESS_UNDEF;
  for (int j = 0; j < 3; ++j) if (t[j] == v) next = t[(j + 1) % 3], prev = t[(j + 2) % 3];
  c.NonTrivial(next != TESS_UNDEF);
  PROP(FindNeighbor(elems.data(), v, e, VertexOffset::kCounterClockwise) == next, "find-next");
  PROP(FindNeighbor(elems.data(), v, e, VertexOffset::kClockwise) == prev, "find-previous");
  PROP(FindNeighbor(elems.data(), v, TESS_UNDEF, VertexOffset::kClockwise) == TESS_UNDEF, "no-neighbor");
}
}  // namespace
