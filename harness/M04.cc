// The spatial index, partitioned meshes, and queries against them.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "harness/poly.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/internal/static_rtree.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"

using ink::AffineTransform;
using ink::Mesh;
using ink::MeshFormat;
using ink::MutableMesh;
using ink::PartitionedMesh;
using ink::Point;
using ink::Quad;
using ink::Rect;
using ink::Segment;
using ink::Triangle;
using pbt::Ctx;
using poly::Poly;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;
using X = MeshFormat::IndexFormat;
using VIP = PartitionedMesh::VertexIndexPair;
using TIP = PartitionedMesh::TriangleIndexPair;
using Flow = PartitionedMesh::FlowControl;

namespace {
// ---------------------------------------------------------------- the index
template <uint32_t B>
void CheckTree(Ctx& c) {
  using Tree = ink::geometry_internal::StaticRTree<int, B>;
  int n = c.Weighted({1, 6, 3}) == 2 ? c.Int(0, 700) : c.Len(0, 5 * (int)B);
  int r = c.PickOf({3, 12, 60});
  std::vector<Rect> rects;
  for (int i = 0; i < n; ++i) {
    float x = c.Signed(-r, r), y = c.Signed(-r, r);
    rects.push_back(Rect::FromTwoPoints({x, y}, {x + (float)c.Choice(3), y + (float)c.Choice(3)}));
  }
  auto bounds = [&rects](const int& i) { return rects[i % (int)rects.size()]; };
  c.Note(n, " rectangles within ", r, ", branching factor ", B);
  std::vector<int> ids(n);
  for (int i = 0; i < n; ++i) ids[i] = i;
  int next = 0;
  Tree t = c.Bool() ? Tree(absl::MakeConstSpan(ids), bounds) : Tree(n, [&next] { return next++; }, bounds);
  if (c.Chance(1, 8)) { Tree u = t; t = std::move(u); }
  PROP(std::vector<int>(t.Elements().begin(), t.Elements().end()) == ids, "elements");
  // shape of the tree: every element once, depth even, bounds exact
  auto nodes = t.BranchNodes();
  PROP(nodes.empty() == (n == 0), "empty-tree");
  std::vector<int> leaf(n), branch(nodes.size());
  for (size_t i = 0; i < nodes.size(); ++i) {
    const auto& b = nodes[i];
    PROP(b.child_indices.Size() > 0 && b.child_indices.Size() <= (int)B, "fanout", b.child_indices.Size());
    ink::Envelope e;
    for (int k = 0; k < b.child_indices.Size(); ++k) {
      uint32_t j = b.child_indices[k];
      if (b.is_leaf_parent) { PROP(j < (uint32_t)n, "child"); ++leaf[j]; e.Add(rects[j]); }
      else { PROP(j < nodes.size() && j > i, "child"); ++branch[j]; e.Add(nodes[j].bounds); }
    }
    Rect w = *e.AsRect();
    PROP(w.XMin() == b.bounds.XMin() && w.XMax() == b.bounds.XMax() && w.YMin() == b.bounds.YMin() && w.YMax() == b.bounds.YMax(), "node-bounds", i);
  }
  for (int i = 0; i < n; ++i) PROP(leaf[i] == 1, "element-in-tree-once", i, " appears ", leaf[i]);
  for (size_t i = 1; i < nodes.size(); ++i) PROP(branch[i] == 1, "node-in-tree-once", i);
  size_t some = 0;
  for (int q = c.Len(1, 4); q > 0; --q) {
    float x = c.Signed(-r - 1, r + 1), y = c.Signed(-r - 1, r + 1);
    Rect query = Rect::FromTwoPoints({x, y}, {x + (float)c.Choice(r), y + (float)c.Choice(r)});
    std::multiset<int> want, got;
    for (int i = 0; i < n; ++i)
      if (rects[i].XMin() <= query.XMax() && query.XMin() <= rects[i].XMax() && rects[i].YMin() <= query.YMax() && query.YMin() <= rects[i].YMax()) want.insert(i);
    t.VisitIntersectedElements(query, [&](const int& i) { got.insert(i); return true; });
    PROP(got == want, "visited", query, " gives ", got.size(), " elements, expected ", want.size());
    if (!want.empty()) {
      size_t stop = 1 + c.Choice(want.size() - 1), seen = 0;
      t.VisitIntersectedElements(query, [&](const int& i) { ++seen; PROP(want.count(i), "visited-early", i); return seen < stop; });
      PROP(seen == stop, "stops-when-told", seen, " expected ", stop);
      ++some;
    }
  }
  c.NonTrivial(n > (int)B && some > 0);
  c.Label(pbt::Cat("branching ", B));
  c.Label("deeper than two levels", nodes.size() > B + 1);
}

// ---------------------------------------------------------------- building
std::vector<MeshFormat> Formats() {
  std::vector<MeshFormat> v;
  v.push_back(*MeshFormat::Create({{A::kFloat2Unpacked, I::kPosition}}, X::k32BitUnpacked16BitPacked));
  v.push_back(*MeshFormat::Create({{A::kFloat2Unpacked, I::kPosition}, {A::kFloat1Unpacked, I::kOpacityShift}}, X::k32BitUnpacked16BitPacked));
  v.push_back(*MeshFormat::Create({{A::kFloat1Unpacked, I::kOpacityShift}, {A::kFloat2Unpacked, I::kPosition}}, X::k32BitUnpacked16BitPacked));
  v.push_back(*MeshFormat::Create({{A::kFloat2Unpacked, I::kPosition}}, X::k16BitUnpacked16BitPacked));
  return v;
}
const std::vector<MeshFormat>& F() { static const auto* f = new std::vector<MeshFormat>(Formats()); return *f; }

struct Soup {  // the geometry of a mesh
  std::vector<Point> pts;
  std::vector<std::array<uint32_t, 3>> tris;
};
Soup GenSoup(Ctx& c, int r, int max_tris, float u = 1) {
  Soup s;
  int nt = c.Len(1, max_tris), style = (int)c.Choice(2);
  if (style == 0) {  // a strip
    float x = c.Signed(-r, r), y = c.Signed(-r, r);
    for (int i = 0; i < nt + 2; ++i) {
      s.pts.push_back({x * u, y * u});
      x += c.Signed(-2, 2);
      y += i % 2 ? c.Signed(-3, 0) : c.Signed(0, 3);
      x = std::clamp<float>(x, -r, r);
      y = std::clamp<float>(y, -r, r);
    }
    for (uint32_t i = 0; i < (uint32_t)nt; ++i) s.tris.push_back(i % 2 ? std::array<uint32_t, 3>{i, i + 2, i + 1} : std::array<uint32_t, 3>{i, i + 1, i + 2});
  } else if (style == 1) {  // scattered small triangles, some of them degenerate
    for (int i = 0; i < nt; ++i) {
      float x = c.Signed(-r, r), y = c.Signed(-r, r);
      for (int k = 0; k < 3; ++k) { float dx = c.Signed(-2, 2); s.pts.push_back({(x + dx) * u, (y + (float)c.Signed(-2, 2)) * u}); }
      s.tris.push_back({3u * i, 3u * i + 1, 3u * i + 2});
    }
  } else {  // shared pool
    int nv = c.Len(3, 8);
    for (int i = 0; i < nv; ++i) { float x = c.Signed(-r, r); s.pts.push_back({x * u, c.Signed(-r, r) * u}); }
    for (int i = 0; i < nt; ++i) {
      uint32_t a = c.Choice(nv - 1), b = c.Choice(nv - 1);
      s.tris.push_back({a, b, (uint32_t)c.Choice(nv - 1)});
    }
  }
  return s;
}
Mesh MakeMesh(const Soup& s, const MeshFormat& f) {
  std::vector<float> x, y, z(s.pts.size(), 0.5f);
  std::vector<uint32_t> idx;
  for (Point p : s.pts) x.push_back(p.x), y.push_back(p.y);
  for (auto& t : s.tris) for (uint32_t i : t) idx.push_back(i);
  std::vector<absl::Span<const float>> attrs;
  for (const auto& a : f.Attributes()) {
    if (a.id == I::kPosition) { attrs.push_back(x); attrs.push_back(y); }
    else attrs.push_back(z);
  }
  auto m = Mesh::Create(f, attrs, idx);
  PROP(m.ok(), "setup", m.status().ToString());
  return *m;
}
struct Body {  // a partitioned mesh and what it should be
  PartitionedMesh mesh;
  std::vector<Triangle> tris;
  std::map<std::pair<uint32_t, uint32_t>, int> id;  // (mesh, triangle) -> index
  std::vector<Poly> polys;
  std::vector<double> areas;
  double area = 0;
  Poly bounds;
};
Body GenBody(Ctx& c, int r, int max_tris, float u = 1) {
  Body b;
  std::vector<std::vector<Mesh>> groups(c.Weighted({1, 4, 2}));
  if (groups.empty()) { groups.resize(1); }
  std::vector<PartitionedMesh::MeshGroup> g;
  for (auto& meshes : groups) {
    const MeshFormat& f = F()[c.Choice(F().size() - 1)];
    int n = groups.size() == 1 ? c.Int(1, 2) : c.Int(0, 2);
    for (int k = 0; k < n; ++k) meshes.push_back(MakeMesh(GenSoup(c, r, max_tris, u), f));
    g.push_back({.meshes = meshes, .outlines = {}});
  }
  auto p = PartitionedMesh::FromMeshGroups(g);
  PROP(p.ok(), "setup", p.status().ToString());
  b.mesh = *p;
  ink::Envelope e;
  for (uint32_t m = 0; m < b.mesh.Meshes().size(); ++m)
    for (uint32_t t = 0; t < b.mesh.Meshes()[m].TriangleCount(); ++t) {
      Triangle tri = b.mesh.Meshes()[m].GetTriangle(t);
      b.id[{m, t}] = b.tris.size();
      b.tris.push_back(tri);
      b.polys.push_back(poly::Make(tri));
      b.areas.push_back(std::fabs(poly::Area(b.polys.back())));
      b.area += b.areas.back();
      e.Add(tri);
    }
  if (!e.IsEmpty()) b.bounds = poly::Make(*e.AsRect());
  return b;
}
AffineTransform GenTransform(Ctx& c, int r, float u = 1) {
  int k = c.Weighted({4, 2, 2, 3, 2});
  float tx = c.Signed(-r, r) * u, ty = c.Signed(-r, r) * u;
  if (k == 0) return {};
  if (k == 1) return {1, 0, tx, 0, 1, ty};
  if (k == 2) { float s = c.PickOf({0.5f, 2.f, -1.f, 4.f}); return {s, 0, tx, 0, s, ty}; }
  if (k == 3) { float a = c.Signed(-2, 2), b = c.Signed(-2, 2), d = c.Signed(-2, 2); return {a, b, tx, d, (float)c.Signed(-2, 2), ty}; }
  // singular
  float a = c.Signed(-2, 2), b = c.Signed(-2, 2), m = c.Signed(-1, 1);
  return {a, b, tx, m * a, m * b, ty};
}
Poly Map(const AffineTransform& t, const Poly& p) {
  Poly q = p;
  for (auto& v : q) v = {(double)t.A() * v.x + (double)t.B() * v.y + t.C(), (double)t.D() * v.x + (double)t.E() * v.y + t.F()};
  return q;
}
double Det(const AffineTransform& t) { return (double)t.A() * t.E() - (double)t.B() * t.D(); }
bool Plain(const AffineTransform& t) { return t.A() == 1 && t.B() == 0 && t.C() == 0 && t.D() == 0 && t.E() == 1 && t.F() == 0; }

// Compares what a query visited with what it had to visit. `want` holds one answer per triangle: 1 yes, 0 no, -1 too close to say.
template <typename Q>
void CheckVisit(Ctx& c, const Body& b, const Q& q, const AffineTransform& t, const std::vector<int>& want, const std::string& tag) {
  std::vector<int> got(b.tris.size());
  b.mesh.VisitIntersectedTriangles(q, [&](TIP i) {
    auto it = b.id.find({i.mesh_index, i.triangle_index});
    PROP(it != b.id.end(), "visited-triangle-exists", i.mesh_index, " ", i.triangle_index);
    ++got[it->second];
    return Flow::kContinue;
  }, t);
  int hits = 0, maybe = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    PROP(got[i] <= 1, "visited-once", i);
    if (want[i] >= 0) PROP(got[i] == want[i], tag, b.tris[i], " visited ", got[i], " expected ", want[i]);
    else ++maybe;
    hits += got[i];
  }
  if (hits) {
    int stop = 1 + (int)c.Choice(hits - 1), seen = 0;
    b.mesh.VisitIntersectedTriangles(q, [&](TIP i) { ++seen; PROP(got[b.id.at({i.mesh_index, i.triangle_index})], "visited-early"); return seen < stop ? Flow::kContinue : Flow::kBreak; }, t);
    PROP(seen == stop, "stops-when-told", seen, " expected ", stop);
  }
  c.NonTrivial(hits > 0 && hits < (int)got.size());
  c.Label("touched by some but not all", hits > 0 && hits < (int)got.size());
  c.Label("undecided by the tolerance", maybe > 0);
}
// Something of one shape is inside the other, or two of their edges cross, by more than tol.
bool Witness(const Poly& q, const Poly& t, double tol) {
  auto inside = [tol](const Poly& g, poly::P p) { return poly::DeepIntersects(g, {p}, tol); };
  poly::P m{0, 0};
  for (auto p : q) m.x += p.x / q.size(), m.y += p.y / q.size();
  if (inside(t, m)) return true;
  for (auto p : t) if (inside(q, p)) return true;
  auto far = [tol](poly::P a, poly::P b, poly::P p) { double l = poly::Dist(a, b); return l == 0 ? 0 : std::fabs(poly::Cross(a, b, p)) > tol * l ? poly::Sgn(poly::Cross(a, b, p)) : 0; };
  for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < t.size(); ++j) {
    poly::P a = q[i], b = q[(i + 1) % q.size()], c = t[j], d = t[(j + 1) % t.size()];
    if (far(a, b, c) * far(a, b, d) < 0 && far(c, d, a) * far(c, d, b) < 0) return true;
  }
  return false;
}
int Judge(const Poly& q, const Poly& t, double tol) {
  if (tol == 0) return poly::Intersects(q, t);
  if (poly::Intersects(q, t)) return Witness(q, t, tol) ? 1 : -1;
  return poly::Distance(q, t) > tol ? 0 : -1;
}
// Area of coverage: the sum over visited triangles, up to the undecided ones.
template <typename Q>
void CheckCoverage(Ctx& c, const Body& b, const Q& q, const AffineTransform& t, const std::vector<int>& want) {
  double lo = 0, hi = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i] == 1) lo += b.areas[i];
    if (want[i] != 0) hi += b.areas[i];
  }
  float cov = b.mesh.Coverage(q, t);
  if (b.area == 0) { PROP(cov == 0, "coverage-of-nothing", cov); }
  else {
    lo /= b.area;
    hi /= b.area;
    PROP(cov >= lo - 1e-5 && cov <= hi + 1e-5, "coverage", cov, " expected between ", lo, " and ", hi);
  }
  float th = c.PickOf({0.f, 0.25f, 0.5f, 0.9f, 1.f, -0.5f, cov - 1e-4f, cov + 1e-4f});
  bool gt = b.mesh.CoverageIsGreaterThan(q, th, t);
  if (b.area > 0 && std::fabs(cov - th) > 5e-5) PROP(gt == (cov > th), "coverage-threshold", cov, " over ", th, " says ", gt);
  if (th == 0 && cov == 0) PROP(!gt, "coverage-threshold-zero");
}
}  // namespace

PBT(index, 900, "the tree has more than one node and some query meets an element") {
  switch (c.Choice(4)) {
    case 0: CheckTree<2>(c); break;
    case 1: CheckTree<3>(c); break;
    case 2: CheckTree<4>(c); break;
    case 3: CheckTree<16>(c); break;
    default: CheckTree<7>(c); break;
  }
}

PBT(build, 1200, "more than one group, or an outline, or something wrong with the request") {
  int ng = c.Len(0, 4);
  std::vector<std::vector<Mesh>> meshes(ng);
  std::vector<std::vector<std::vector<VIP>>> outlines(ng);
  std::vector<std::vector<absl::Span<const VIP>>> spans(ng);
  std::vector<PartitionedMesh::MeshGroup> groups;
  bool bad = false, any_outline = false;
  for (int g = 0; g < ng; ++g) {
    int nm = c.Len(0, 3), fi = (int)c.Choice(F().size() - 1);
    for (int m = 0; m < nm; ++m) {
      int f = c.Chance(1, 25) ? (int)c.Choice(F().size() - 1) : fi;
      if (c.Chance(1, 30)) { meshes[g].push_back(Mesh()); bad = true; continue; }
      Mesh mesh = MakeMesh(GenSoup(c, 8, 4), F()[f]);
      if (m > 0 && !(meshes[g][0].Format() == mesh.Format())) bad = true;
      meshes[g].push_back(mesh);
    }
    int no = c.Len(0, 3);
    for (int o = 0; o < no; ++o) {
      std::vector<VIP> line;
      int n = c.Chance(1, 15) ? 0 : c.Len(1, 5);
      for (int k = 0; k < n; ++k) {
        VIP v{(uint16_t)c.Choice(nm > 0 ? nm - 1 : 0), 0};
        if (c.Chance(1, 60)) v.mesh_index = nm;
        uint32_t vc = v.mesh_index < nm ? meshes[g][v.mesh_index].VertexCount() : 0;
        v.vertex_index = vc > 0 ? c.Choice(vc - 1) : 0;
        if (c.Chance(1, 60)) v.vertex_index = vc;
        if (v.mesh_index >= nm || v.vertex_index >= vc) bad = true;
        line.push_back(v);
      }
      if (n == 0) bad = true;
      outlines[g].push_back(line);
      any_outline = true;
    }
    for (auto& l : outlines[g]) spans[g].push_back(l);
    groups.push_back({.meshes = meshes[g], .outlines = spans[g]});
  }
  for (int g = 0; g < ng; ++g) c.Note("group of ", meshes[g].size(), " meshes and ", outlines[g].size(), " outlines");
  c.NonTrivial(ng > 1 || any_outline || bad);
  c.Label("invalid", bad);
  auto check = [&](const absl::StatusOr<PartitionedMesh>& r) {
    PROP(r.ok() == !bad, "accepted", r.status().ToString());
    if (!r.ok()) { PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "error-kind", r.status().ToString()); return; }
    PartitionedMesh p = *r;
    if (c.Chance(1, 4)) { PartitionedMesh q = p; p = q; }
    PROP(p.RenderGroupCount() == (uint32_t)ng, "group-count", p.RenderGroupCount());
    size_t total = 0;
    ink::Envelope env;
    for (int g = 0; g < ng; ++g) {
      auto ms = p.RenderGroupMeshes(g);
      PROP(ms.size() == meshes[g].size(), "group-meshes", g, " ", ms.size());
      for (size_t m = 0; m < ms.size(); ++m, ++total) {
        PROP(ms[m].RawVertexData().data() == meshes[g][m].RawVertexData().data(), "group-mesh-shared", g, " ", m);
        PROP(total < p.Meshes().size() && p.Meshes()[total].RawVertexData().data() == ms[m].RawVertexData().data(), "all-meshes");
        for (uint32_t v = 0; v < ms[m].VertexCount(); ++v) env.Add(ms[m].VertexPosition(v));
      }
      if (!meshes[g].empty()) PROP(p.RenderGroupFormat(g) == meshes[g][0].Format(), "group-format", g);
      else PROP(p.RenderGroupFormat(g) == MeshFormat(), "empty-group-format", g);
      PROP(p.OutlineCount(g) == outlines[g].size(), "outline-count", g);
      for (size_t o = 0; o < outlines[g].size(); ++o) {
        PROP(p.OutlineVertexCount(g, o) == outlines[g][o].size(), "outline-size", g, " ", o);
        for (size_t k = 0; k < outlines[g][o].size(); ++k) {
          VIP v = p.Outline(g, o)[k], w = outlines[g][o][k];
          PROP(v.mesh_index == w.mesh_index && v.vertex_index == w.vertex_index, "outline", g, " ", o, " ", k);
          PROP(p.OutlinePosition(g, o, k) == meshes[g][w.mesh_index].VertexPosition(w.vertex_index), "outline-position", g, " ", o, " ", k);
        }
      }
    }
    PROP(p.Meshes().size() == total, "all-meshes", p.Meshes().size());
    auto b = p.Bounds().AsRect(), w = env.AsRect();
    PROP(b.has_value() == w.has_value(), "bounds");
    if (b) PROP(b->XMin() == w->XMin() && b->YMin() == w->YMin() && b->XMax() == w->XMax() && b->YMax() == w->YMax(), "bounds", *b, " expected ", *w);
    if (total == 0) {
      PROP(!p.IsSpatialIndexInitialized(), "index-of-nothing");
      p.InitializeSpatialIndex();
      bool seen = false;
      auto see = [&](TIP) { seen = true; return Flow::kContinue; };
      Rect q = Rect::FromTwoPoints({-9, -9}, {9, 9});
      p.VisitIntersectedTriangles(Point{0, 0}, see);
      p.VisitIntersectedTriangles(Segment{{0, 0}, {1, 1}}, see);
      p.VisitIntersectedTriangles(q, see);
      p.VisitIntersectedTriangles(p, see);
      PROP(!seen && p.Coverage(q) == 0 && !p.CoverageIsGreaterThan(q, -1) && p.Coverage(p) == 0 && !p.CoverageIsGreaterThan(p, 0) && !ink::Intersects(p, {}, q) && !ink::Intersects(p, {}, p, {}), "empty-meets-nothing");
    }
  };
  check(PartitionedMesh::FromMeshGroups(groups));
  if (ng == 1) check(PartitionedMesh::FromMeshes(meshes[0], spans[0]));
  uint32_t k = c.Choice(5);
  PartitionedMesh e = PartitionedMesh::WithEmptyGroups(k);
  PROP(e.RenderGroupCount() == k && e.Meshes().empty() && e.Bounds().IsEmpty(), "empty-groups");
  for (uint32_t g = 0; g < k; ++g) PROP(e.RenderGroupMeshes(g).empty() && e.OutlineCount(g) == 0, "empty-group", g);
}

PBT(from_mutable, 1200, "some vertex is unused by triangles, or an outline exists, or an attribute is left out") {
  int ng = c.Len(1, 3);
  std::vector<MutableMesh> ms;
  std::vector<Soup> soups(ng);
  std::vector<std::vector<std::vector<uint32_t>>> outlines(ng);
  std::vector<std::vector<absl::Span<const uint32_t>>> spans(ng);
  std::vector<std::vector<I>> omit(ng);
  bool bad = false, unused = false, any_outline = false, vanishing = false;
  for (int g = 0; g < ng; ++g) {
    int fi = (int)c.Choice(F().size() - 1);
    MutableMesh m(F()[fi]);
    Soup& s = soups[g];
    // proper counterclockwise triangles among lattice points
    int nv = c.Len(3, 12);
    for (int i = 0; i < nv; ++i) { float x = c.Signed(-9, 9); s.pts.push_back({x, (float)c.Signed(-9, 9)}); }
    for (int t = c.Len(0, 8); t > 0; --t) {
      std::array<uint32_t, 3> x{(uint32_t)c.Choice(nv - 1), (uint32_t)c.Choice(nv - 1), (uint32_t)c.Choice(nv - 1)};
      if (x[0] == x[1] || x[1] == x[2] || x[0] == x[2]) continue;
      if (poly::Cross(poly::Of(s.pts[x[0]]), poly::Of(s.pts[x[1]]), poly::Of(s.pts[x[2]])) < 0) std::swap(x[1], x[2]);
      s.tris.push_back(x);
    }
    for (Point p : s.pts) m.AppendVertex(p);
    for (auto& t : s.tris) m.AppendTriangleIndices(t);
    ms.push_back(std::move(m));
    std::vector<char> used(nv);
    for (auto& t : s.tris) for (uint32_t i : t) used[i] = 1;
    for (char u : used) unused |= !u;
    for (int o = c.Len(0, 3); o > 0; --o) {
      std::vector<uint32_t> l;
      for (int k = c.Len(0, 6); k > 0; --k) l.push_back(c.Chance(1, 80) ? (uint32_t)nv + (uint32_t)c.Choice(1) : (uint32_t)c.Choice(nv - 1));
      bool kept = l.empty();
      for (uint32_t i : l) {
        if (i >= (uint32_t)nv) bad = true;
        else kept |= used[i] != 0;
      }
      vanishing |= !kept;
      outlines[g].push_back(l);
      any_outline = true;
    }
    if (F()[fi].Attributes().size() > 1 && c.Bool()) omit[g].push_back(I::kOpacityShift);
    if (s.tris.empty()) {}  // nothing is left out of nothing
    else if (c.Chance(1, 40)) { omit[g].push_back(I::kPosition); bad = true; }
    else if (F()[fi].Attributes().size() == 1 && c.Chance(1, 40)) { omit[g].push_back(I::kOpacityShift); bad = true; }
    for (auto& l : outlines[g]) spans[g].push_back(l);
  }
  std::vector<PartitionedMesh::MutableMeshGroup> groups;
  for (int g = 0; g < ng; ++g) groups.push_back({.mesh = &ms[g], .outlines = spans[g], .omit_attributes = omit[g], .packing_params = {}});
  for (int g = 0; g < ng; ++g) c.Note("group of ", soups[g].pts.size(), " vertices, ", soups[g].tris.size(), " triangles, ", outlines[g].size(), " outlines, ", omit[g].size(), " attributes left out");
  c.NonTrivial(unused || any_outline || ng > 1);
  c.Label("invalid", bad);
  bool one = ng == 1 && c.Bool();
  auto r = one ? PartitionedMesh::FromMutableMesh(ms[0], spans[0], omit[0]) : PartitionedMesh::FromMutableMeshGroups(groups);
  if (bad) { PROP(!r.ok(), "rejected"); return; }
  if (vanishing) return;  // an outline of nothing but unused vertices is left unspecified
  PROP(r.ok(), "accepted", r.status().ToString());
  PROP(r->RenderGroupCount() == (uint32_t)ng, "group-count");
  for (int g = 0; g < ng; ++g) {
    const Soup& s = soups[g];
    auto meshes = r->RenderGroupMeshes(g);
    PROP(meshes.size() == (s.tris.empty() ? 0u : 1u), "group-meshes", meshes.size());
    std::vector<char> used(s.pts.size());
    for (auto& t : s.tris) for (uint32_t i : t) used[i] = 1;
    if (!meshes.empty()) {
      PROP(meshes[0].Format().Attributes().size() == ms[g].Format().Attributes().size() - omit[g].size(), "omitted");
      PROP(meshes[0].TriangleCount() == s.tris.size(), "triangles");
      for (size_t t = 0; t < s.tris.size(); ++t) {
        Triangle x = meshes[0].GetTriangle(t);
        PROP(x.p0 == s.pts[s.tris[t][0]] && x.p1 == s.pts[s.tris[t][1]] && x.p2 == s.pts[s.tris[t][2]], "triangle", t, " ", x);
      }
    }
    size_t k = 0;
    for (auto& l : outlines[g]) {
      if (l.empty()) continue;
      std::vector<Point> want, got;
      for (uint32_t i : l) if (used[i]) want.push_back(s.pts[i]);
      PROP(k < r->OutlineCount(g), "outline-count", r->OutlineCount(g));
      for (uint32_t v = 0; v < r->OutlineVertexCount(g, k); ++v) got.push_back(r->OutlinePosition(g, k, v));
      PROP(got.size() == want.size(), "outline-size", got.size(), " expected ", want.size());
      for (size_t v = 0; v < got.size(); ++v) PROP(got[v] == want[v], "outline-position", got[v], " expected ", want[v]);
      ++k;
    }
    PROP(k == r->OutlineCount(g), "outline-count", r->OutlineCount(g));
  }
}

PBT(query, 3000, "the query meets some triangles of the mesh and misses others") {
  int r = c.PickOf({4, 8, 16});
  float u = c.Chance(2, 3) ? 1.f : std::ldexp(1.f, c.Signed(-10, 10));
  Body b = GenBody(c, r, c.PickOf({3, 10, 40}), u);
  AffineTransform t = GenTransform(c, r, u);
  c.Note(b.tris.size(), " triangles in ", b.mesh.Meshes().size(), " meshes, ", t);
  if (c.Bool()) {
    b.mesh.InitializeSpatialIndex();
    PROP(b.mesh.IsSpatialIndexInitialized() == !b.tris.empty(), "index-initialized");
    PartitionedMesh copy = b.mesh;
    PROP(copy.IsSpatialIndexInitialized() == !b.tris.empty(), "index-shared-with-copies");
  }
  auto pt = [&] { float x = c.Signed(-r, r) * u; return Point{x, c.Signed(-r, r) * u}; };
  std::vector<int> want(b.tris.size());
  double tol = 2e-3 * u;
  int kind = (int)c.Choice(5);
  auto judge = [&](const Poly& q, double tl) {
    for (size_t i = 0; i < want.size(); ++i) want[i] = Judge(q, b.polys[i], tl);
  };
  auto run = [&](const auto& q, bool exact, const char* name) {
    c.Note(name, " ", pbt::Show(q));
    c.Label(pbt::Cat(name, Plain(t) ? "" : Det(t) == 0 ? " flattened" : " transformed"));
    judge(Map(t, poly::Make(q)), exact ? 0 : tol);
    CheckVisit(c, b, q, t, want, pbt::Cat("visits-", name));
    if constexpr (!std::is_same_v<std::decay_t<decltype(q)>, Point> && !std::is_same_v<std::decay_t<decltype(q)>, Segment>) CheckCoverage(c, b, q, t, want);
  };
  switch (kind) {
    case 0: run(pt(), true, "point"); break;
    case 1: { Point p = pt(); run(Segment{p, pt()}, true, "segment"); break; }
    case 2: { Point p = pt(), q = pt(); run(Triangle{p, q, pt()}, true, "triangle"); break; }
    case 3: { Point p = pt(); run(Rect::FromTwoPoints(p, pt()), Plain(t), "rect"); break; }
    case 4: {
      Point m = pt();
      float w = 2 * c.Int(0, r / 2) * u, h = 2 * c.Signed(-r / 2, r / 2) * u, s = c.Chance(1, 3) ? 0.f : c.Signed(-3, 3) / 2.f;
      run(Quad::FromCenterDimensionsRotationAndShear(m, w, h, ink::Angle::Radians(c.Bool() ? 0 : c.UniformF(-4, 4)), s), false, "quad");
      break;
    }
    default: {
      Body q = GenBody(c, r, 6, u);
      double det = Det(t);
      c.Note("query of ", q.tris.size(), " triangles", q.tris.empty() ? "" : ", first ", q.tris.empty() ? "" : pbt::Show(q.tris[0]), q.tris.size() > 1 ? pbt::Show(q.tris[1]) : "", q.tris.size() > 2 ? pbt::Show(q.tris[2]) : "", q.tris.size() > 3 ? pbt::Show(q.tris[3]) : "");
      c.Label(det == 0 ? "mesh flattened" : Plain(t) ? "mesh" : "mesh transformed");
      for (size_t i = 0; i < want.size(); ++i) {
        want[i] = 0;
        for (const Poly& s : q.polys) {
          Poly mapped = Map(t, s);
          int j = Judge(mapped, b.polys[i], Plain(t) ? 0 : tol);
          if (j == 1) { want[i] = 1; break; }
          if (j == -1) want[i] = -1;
        }
        // A flattened mesh is only promised to lie within its flattened outline.
        if (det == 0 && want[i] == 0 && !q.polys.empty()) {
          Poly all;
          for (const Poly& s : q.polys) for (auto p : Map(t, s)) all.push_back(p);
          // all of them lie on one line: its two ends
          auto lo = *std::min_element(all.begin(), all.end(), [](auto a, auto b) { return std::pair(a.x, a.y) < std::pair(b.x, b.y); });
          auto hi = *std::max_element(all.begin(), all.end(), [](auto a, auto b) { return std::pair(a.x, a.y) < std::pair(b.x, b.y); });
          if (poly::Distance({lo, hi}, b.polys[i]) <= tol) want[i] = -1;
        }
      }
      CheckVisit(c, b, q.mesh, t, want, "visits-mesh");
      CheckCoverage(c, b, q.mesh, t, want);
    }
  }
}

PBT(meets, 1800, "the mesh is transformed and the boxes of the two shapes overlap") {
  int r = c.PickOf({4, 8, 16});
  Body a = GenBody(c, r, 12);
  AffineTransform ta = GenTransform(c, r);
  // the mesh's image, one convex piece per triangle
  auto image = [](const Body& b, const AffineTransform& t) {
    std::vector<Poly> v;
    for (const Poly& p : b.polys) v.push_back(Map(t, p));
    return v;
  };
  auto ends = [](const std::vector<Poly>& v) {
    Poly all;
    for (const Poly& p : v) all.insert(all.end(), p.begin(), p.end());
    auto less = [](auto x, auto y) { return std::pair(x.x, x.y) < std::pair(y.x, y.y); };
    return Poly{*std::min_element(all.begin(), all.end(), less), *std::max_element(all.begin(), all.end(), less)};
  };
  auto box = [](const std::vector<Poly>& v) {
    double m[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY};
    for (const Poly& p : v) for (auto q : p) m[0] = std::min(m[0], q.x), m[1] = std::min(m[1], q.y), m[2] = std::max(m[2], q.x), m[3] = std::max(m[3], q.y);
    return std::array<double, 4>{m[0], m[1], m[2], m[3]};
  };
  // -1 undecided
  auto decide = [&](const std::vector<Poly>& x, bool flat_x, const std::vector<Poly>& y, bool flat_y, double tol) {
    if (x.empty() || y.empty()) return 0;
    int best = 0;
    for (auto& p : x) for (auto& q : y) {
      int j = Judge(p, q, tol);
      if (j == 1) return 1;
      if (j == -1) best = -1;
    }
    if (best == 0 && (flat_x || flat_y)) {  // within the flattened outlines there may be a touch
      std::vector<Poly> xs = flat_x ? std::vector<Poly>{ends(x)} : x, ys = flat_y ? std::vector<Poly>{ends(y)} : y;
      for (auto& p : xs) for (auto& q : ys) if (poly::Distance(p, q) <= tol) best = -1;
    }
    return best;
  };
  auto pt = [&] { float x = c.Signed(-2 * r, 2 * r); return Point{x, (float)c.Signed(-2 * r, 2 * r)}; };
  std::vector<Poly> ia = image(a, ta);
  bool fa = Det(ta) == 0;
  auto note = [&](const std::vector<Poly>& ib, int want) {
    bool overlap = false;
    if (!ia.empty() && !ib.empty()) {
      auto x = box(ia), y = box(ib);
      overlap = x[0] <= y[2] && y[0] <= x[2] && x[1] <= y[3] && y[1] <= x[3];
    }
    c.NonTrivial(overlap && !Plain(ta));
    c.Label(want == 1 ? "meet" : want == 0 ? overlap ? "boxes overlap, shapes apart" : "far apart" : "undecided");
  };
  auto shape = [&](const auto& s, const char* name) {
    c.Note(ta, " ", name, " ", pbt::Show(s));
    std::vector<Poly> ib{poly::Make(s)};
    int want = decide(ia, fa, ib, false, Plain(ta) ? 0 : 2e-3);
    note(ib, want);
    bool got = ink::Intersects(a.mesh, ta, s);
    if (want >= 0) PROP(got == want, pbt::Cat("meets-", name), got, " expected ", want);
    PROP(ink::Intersects(s, a.mesh, ta) == got, "meets-swapped", name);
  };
  switch (c.Choice(6)) {
    case 0: shape(pt(), "point"); break;
    case 1: { Point p = pt(); shape(Segment{p, pt()}, "segment"); break; }
    case 2: { Point p = pt(), q = pt(); shape(Triangle{p, q, pt()}, "triangle"); break; }
    case 3: { Point p = pt(); shape(Rect::FromTwoPoints(p, pt()), "rect"); break; }
    case 4: {
      Point m = pt();
      float w = 2 * c.Int(0, r / 2), h = 2 * c.Signed(-r / 2, r / 2);
      shape(Quad::FromCenterDimensionsRotationAndShear(m, w, h, ink::Angle::Radians(0), c.Signed(-3, 3) / 2.f), "quad");
      break;
    }
    default: {
      Body b = GenBody(c, r, 12);
      AffineTransform tb = GenTransform(c, r);
      std::vector<Poly> ib = image(b, tb);
      bool fb = Det(tb) == 0;
      c.Note(ta, " ", tb);
      int want = decide(ia, fa, ib, fb, Plain(ta) && Plain(tb) ? 0 : 5e-3);
      note(ib, want);
      c.Label(fa && fb ? "both flattened" : fa || fb ? "one flattened" : "neither flattened");
      bool got = ink::Intersects(a.mesh, ta, b.mesh, tb);
      if (want >= 0) PROP(got == want, "mesh-meets-mesh", ta, " ", tb, " says ", got, " expected ", want);
      bool back = ink::Intersects(b.mesh, tb, a.mesh, ta);
      if (want >= 0) PROP(back == got, "mesh-meets-mesh-swapped");
    }
  }
}

PBT(many_triangles, 1, "the mesh has more triangles than a 16-bit number can count") {
  int n = c.PickOf({65535, 65536, 65537, 70000, 131073});
  Soup s;
  int side = 300;
  for (int y = 0; y <= side && s.pts.size() < 60000; ++y) for (int x = 0; x <= 150; ++x) s.pts.push_back({(float)x, (float)y});
  for (int y = 0; y < side && (int)s.tris.size() < n; ++y)
    for (int x = 0; x < 150 && (int)s.tris.size() < n; ++x) {
      uint32_t a = y * 151 + x;
      s.tris.push_back({a, a + 1, a + 151});
      if ((int)s.tris.size() < n) s.tris.push_back({a + 1, a + 152, a + 151});
    }
  while ((int)s.tris.size() < n) s.tris.push_back(s.tris[s.tris.size() - 90000]);
  std::vector<Mesh> ms{MakeMesh(s, F()[0])};
  Soup extra;
  extra.pts = {{200, 0}, {201, 0}, {200, 1}};
  extra.tris = {{0, 1, 2}};
  ms.push_back(MakeMesh(extra, F()[0]));
  auto p = PartitionedMesh::FromMeshes(ms);
  PROP(p.ok(), "setup");
  c.Note(n, " triangles");
  c.NonTrivial(n > 65536);
  std::vector<int> got(n);
  int other = 0;
  p->VisitIntersectedTriangles(Rect::FromTwoPoints({-1, -1}, {400, 400}), [&](TIP i) {
    if (i.mesh_index == 0) ++got[i.triangle_index];
    else ++other;
    return Flow::kContinue;
  });
  PROP(other == 1, "second-mesh", other);
  for (int i = 0; i < n; ++i) PROP(got[i] == 1, "every-triangle-once", i, " visited ", got[i]);
  Point q{200.25f, 0.25f};
  int hits = 0;
  p->VisitIntersectedTriangles(q, [&](TIP i) { PROP(i.mesh_index == 1 && i.triangle_index == 0, "the-right-triangle"); ++hits; return Flow::kContinue; });
  PROP(hits == 1, "found", hits);
}
