// Editable meshes: every history of edits against a plain model, and their conversion to read-only meshes.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/geo.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"

using ink::Mesh;
using ink::MeshAttributeCodingParams;
using ink::MeshFormat;
using ink::MutableMesh;
using ink::Point;
using pbt::Ctx;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;
using X = MeshFormat::IndexFormat;

namespace {
struct Row { A type; std::vector<int> bits; int comps; };
const std::vector<Row> kRows = {
    {A::kFloat1Unpacked, {}, 1}, {A::kFloat1PackedIn1UnsignedByte, {8}, 1},
    {A::kFloat2Unpacked, {}, 2}, {A::kFloat2PackedIn1Float, {12, 12}, 2}, {A::kFloat2PackedIn3UnsignedBytes_XY12, {12, 12}, 2}, {A::kFloat2PackedIn4UnsignedBytes_X12_Y20, {12, 20}, 2},
    {A::kFloat3Unpacked, {}, 3}, {A::kFloat3PackedIn1Float, {8, 8, 8}, 3}, {A::kFloat3PackedIn2Floats, {16, 16, 16}, 3}, {A::kFloat3PackedIn4UnsignedBytes_XYZ10, {10, 10, 10}, 3},
    {A::kFloat4Unpacked, {}, 4}, {A::kFloat4PackedIn1Float, {6, 6, 6, 6}, 4}, {A::kFloat4PackedIn2Floats, {12, 12, 12, 12}, 4}, {A::kFloat4PackedIn3Floats, {18, 18, 18, 18}, 4},
};
const Row& Find(A t) {
  for (const Row& r : kRows) if (r.type == t) return r;
  pbt::Fail("setup", "type");
}
MeshFormat GenFormat(Ctx& c, int max_attrs) {
  std::vector<std::pair<A, I>> a;
  int n = c.Len(1, max_attrs), pos = (int)c.Choice(n - 1);
  for (int k = 0; k < n; ++k)
    a.push_back({k == pos ? c.PickOf<A>({A::kFloat2Unpacked, A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat2PackedIn4UnsignedBytes_X12_Y20}) : kRows[c.Choice(13)].type,
                 k == pos ? I::kPosition : (I)(1 + k)});
  auto f = MeshFormat::Create(a, c.Bool() ? X::k32BitUnpacked16BitPacked : X::k16BitUnpacked16BitPacked);
  PROP(f.ok(), "setup", f.status().ToString());
  return *f;
}
using Vals = std::vector<std::vector<float>>;  // [attribute][component]
using Tri = std::array<uint32_t, 3>;
struct Model {
  MeshFormat format;
  std::vector<Vals> vertices;
  std::vector<Tri> triangles;
  Vals Zero() const {
    Vals v;
    for (const auto& a : format.Attributes()) v.push_back(std::vector<float>(Find(a.type).comps, 0.f));
    return v;
  }
  int pos() const { return format.PositionAttributeIndex(); }
  Point At(size_t v) const { return {vertices[v][pos()][0], vertices[v][pos()][1]}; }
};
ink::SmallArray<float, 4> Small(const std::vector<float>& v) {
  ink::SmallArray<float, 4> s(v.size());
  for (size_t i = 0; i < v.size(); ++i) s[i] = v[i];
  return s;
}
void Compare(const MutableMesh& m, const Model& w) {
  PROP(m.Format() == w.format, "format");
  PROP(m.VertexCount() == w.vertices.size() && m.TriangleCount() == w.triangles.size(), "counts", m.VertexCount(), " ", m.TriangleCount(), " expected ", w.vertices.size(), " ", w.triangles.size());
  PROP(m.VertexPositionAttributeIndex() == (uint32_t)w.pos(), "position-index");
  size_t stride = 0;
  for (const auto& a : w.format.Attributes()) stride += 4 * Find(a.type).comps;
  PROP(m.VertexStride() == stride && m.RawVertexData().size() == stride * w.vertices.size(), "raw-vertex-size");
  size_t is = w.format.GetIndexFormat() == X::k32BitUnpacked16BitPacked ? 4 : 2;
  PROP(m.IndexStride() == is && m.RawIndexData().size() == 3 * is * w.triangles.size(), "raw-index-size");
  for (size_t v = 0; v < w.vertices.size(); ++v) {
    PROP(pbt::SameBits(m.VertexPosition(v).x, w.At(v).x) && pbt::SameBits(m.VertexPosition(v).y, w.At(v).y), "position", v, " ", m.VertexPosition(v));
    size_t off = 0;
    for (size_t a = 0; a < w.vertices[v].size(); ++a) {
      auto g = m.FloatVertexAttribute(v, a);
      PROP((size_t)g.Size() == w.vertices[v][a].size(), "attribute-size");
      for (int k = 0; k < g.Size(); ++k, off += 4) {
        float raw;
        std::memcpy(&raw, m.RawVertexData().data() + v * stride + off, 4);
        PROP(pbt::SameBits(g[k], w.vertices[v][a][k]) && pbt::SameBits(raw, g[k]), "attribute-value", "vertex ", v, " attribute ", a, " component ", k, ": ", g[k], " expected ", w.vertices[v][a][k]);
      }
    }
  }
  bool bad_vertex = false, repeated = false;
  for (size_t t = 0; t < w.triangles.size(); ++t) {
    PROP(m.TriangleIndices(t) == w.triangles[t], "triangle-indices", t);
    bool in = true;
    for (uint32_t i : w.triangles[t]) in &= i < w.vertices.size();
    bad_vertex |= !in;
    auto& x = w.triangles[t];
    repeated |= x[0] == x[1] || x[1] == x[2] || x[0] == x[2];
    if (in) {
      auto g = m.GetTriangle(t);
      PROP(pbt::SameBits(g.p0.x, w.At(x[0]).x) && pbt::SameBits(g.p1.y, w.At(x[1]).y) && pbt::SameBits(g.p2.x, w.At(x[2]).x), "triangle-corners", t);
    }
  }
  auto s = m.ValidateTriangles();
  PROP(s.ok() == !(bad_vertex || repeated), "triangles-validated", s.ToString());
  if (!s.ok()) PROP(s.code() == absl::StatusCode::kFailedPrecondition, "error-kind", s.ToString());
}
double Area2(Point a, Point b, Point d) { return ((double)b.x - a.x) * ((double)d.y - a.y) - ((double)b.y - a.y) * ((double)d.x - a.x); }

// What conversion to read-only meshes has to give for a model with valid triangles and finite values.
void CheckMeshes(Ctx& c, const absl::InlinedVector<Mesh, 1>& meshes, const Model& w, const std::vector<I>& omit,
                 const std::vector<std::optional<MeshAttributeCodingParams>>& params) {
  std::vector<int> kept;
  for (int a = 0; a < (int)w.format.Attributes().size(); ++a)
    if (std::find(omit.begin(), omit.end(), w.format.Attributes()[a].id) == omit.end()) kept.push_back(a);
  // the vertices that triangles use, in order of first use, and their ranges
  std::vector<char> used(w.vertices.size());
  for (auto& t : w.triangles) for (uint32_t i : t) used[i] = 1;
  std::vector<std::vector<std::pair<double, double>>> range(w.format.Attributes().size());
  for (int a : kept) {
    range[a].assign(Find(w.format.Attributes()[a].type).comps, {INFINITY, -INFINITY});
    for (size_t v = 0; v < w.vertices.size(); ++v)
      if (used[v]) for (size_t k = 0; k < range[a].size(); ++k) {
        range[a][k].first = std::min<double>(range[a][k].first, w.vertices[v][a][k]);
        range[a][k].second = std::max<double>(range[a][k].second, w.vertices[v][a][k]);
      }
  }
  bool original_ok = true;
  for (auto& t : w.triangles) original_ok &= ink::Triangle{w.At(t[0]), w.At(t[1]), w.At(t[2])}.SignedArea() >= 0;
  size_t t = 0;
  bool any_negative = false, any_nudged = false;
  std::map<uint32_t, std::vector<float>> seen_position;
  for (const Mesh& m : meshes) {
    size_t na = m.Format().Attributes().size();
    PROP(na == kept.size(), "omitted-attributes", na);
    for (size_t a = 0; a < na; ++a) {
      PROP(m.Format().Attributes()[a].type == w.format.Attributes()[kept[a]].type && m.Format().Attributes()[a].id == w.format.Attributes()[kept[a]].id, "omitted-attributes", a);
      for (size_t k = 0; k < range[kept[a]].size(); ++k) {
        auto p = m.VertexAttributeUnpackingParams(a).components[k], q = meshes[0].VertexAttributeUnpackingParams(a).components[k];
        PROP(p.offset == q.offset && p.scale == q.scale, "parts-share-packing", a);
      }
    }
    PROP(m.VertexCount() <= 65536 && m.TriangleCount() > 0, "part-size", m.VertexCount());
    std::vector<uint32_t> origin(m.VertexCount(), ~0u);
    std::map<uint32_t, uint32_t> back;
    uint32_t next = 0;
    for (uint32_t i = 0; i < m.TriangleCount(); ++i, ++t) {
      PROP(t < w.triangles.size(), "every-triangle-once");
      auto x = m.TriangleIndices(i);
      for (int k = 0; k < 3; ++k) {
        uint32_t o = w.triangles[t][k];
        auto [it, fresh] = back.insert({o, next});
        if (fresh) ++next;
        PROP(x[k] < m.VertexCount(), "index-in-range", x[k]);
        PROP(origin[x[k]] == ~0u || origin[x[k]] == o, "triangle-kept", "triangle ", t, " corner ", k);
        PROP(origin[x[k]] == o || fresh, "vertex-not-duplicated", "triangle ", t, " corner ", k);
        origin[x[k]] = o;
      }
    }
    PROP(next == m.VertexCount(), "unused-vertices-dropped", m.VertexCount(), " expected ", next);
    // each attribute of each vertex
    std::vector<std::vector<std::pair<float, float>>> bounds(na);
    for (size_t a = 0; a < na; ++a) bounds[a].assign(range[kept[a]].size(), {INFINITY, -INFINITY});
    for (uint32_t v = 0; v < m.VertexCount(); ++v)
      for (size_t a = 0; a < na; ++a) {
        auto g = m.FloatVertexAttribute(v, a);
        const Row& r = Find(m.Format().Attributes()[a].type);
        bool is_pos = m.Format().Attributes()[a].id == I::kPosition;
        for (int k = 0; k < r.comps; ++k) {
          double x = w.vertices[origin[v]][kept[a]][k];
          bounds[a][k].first = std::min<float>(bounds[a][k].first, (float)x);
          bounds[a][k].second = std::max<float>(bounds[a][k].second, (float)x);
          if (r.bits.empty()) { PROP(pbt::SameBits(g[k], (float)x), "unpacked-lossless", g[k], " expected ", x); continue; }
          double maxv = (double)((1u << r.bits[k]) - 1), lo = range[kept[a]][k].first, hi = range[kept[a]][k].second;
          bool custom = !params.empty() && params[a].has_value();
          auto p = m.VertexAttributeUnpackingParams(a).components[k];
          if (custom) PROP(p.offset == params[a]->components[k].offset && p.scale == params[a]->components[k].scale, "custom-params");
          double step = custom ? p.scale : (hi - lo) / maxv;
          double slack = step * maxv * 3e-7 + 3e-7 * (std::abs(x) + std::abs(lo) + std::abs((double)p.offset) + (hi - lo)) + 1.2e-38;
          double err = std::abs(g[k] - x);
          if (err > 0.5 * step + slack) {
            PROP(is_pos, "half-a-step", "attribute ", a, " component ", k, " ", x, " came back as ", g[k], " step ", step);
            PROP(original_ok, "moved-though-already-flipped", x, " ", g[k]);
            PROP(err <= step * (1 + 1e-4) + slack, "within-one-step", x, " came back as ", g[k], " step ", step);
            any_nudged = true;
          }
        }
        if (is_pos) {
          std::vector<float> p{g[0], g[1]};
          auto [it, fresh] = seen_position.insert({origin[v], p});
          PROP(fresh || it->second == p, "parts-line-up", origin[v]);
        }
      }
    for (size_t a = 0; a < na; ++a) {
      auto b = m.AttributeBounds(a);
      PROP(b.has_value(), "bounds-present");
      for (size_t k = 0; k < bounds[a].size(); ++k) PROP(b->minimum[k] == bounds[a][k].first && b->maximum[k] == bounds[a][k].second, "bounds", a, " ", b->minimum[k], " ", b->maximum[k]);
    }
    for (uint32_t i = 0; i < m.TriangleCount(); ++i) any_negative |= m.GetTriangle(i).SignedArea() < 0;
  }
  PROP(t == w.triangles.size(), "every-triangle-once", t, " of ", w.triangles.size());
  if (any_nudged) PROP(!any_negative, "moved-only-to-fix-every-triangle", "a vertex was moved but a triangle is still flipped");
  c.Label("corrected", any_nudged);
  c.Label("flipped and not corrected", any_negative && original_ok);
}
}  // namespace

PBT(history, 6, "a removal and at least four other edits") {
  Model w;
  w.format = GenFormat(c, 4);
  MutableMesh m(w.format);
  std::optional<MutableMesh> spare;
  Model spare_w;
  int edits = 0;
  bool removal = false;
  int steps = c.Len(1, 24);
  for (int s = 0; s < steps; ++s) {
    size_t nv = w.vertices.size(), nt = w.triangles.size();
    uint32_t cap = w.format.GetIndexFormat() == X::k32BitUnpacked16BitPacked ? 0xffffffffu : 0xffffu;
    auto tri = [&] {
      Tri x;
      for (uint32_t& i : x) i = c.Chance(1, 25) ? (uint32_t)c.Choice(cap) : (uint32_t)c.Choice(nv ? nv - 1 : 0);
      return x;
    };
    ++edits;
    switch (c.Weighted({5, 3, 2, 4, 3, 2, 2, 1, 1, 1, 1})) {
      case 0: { Point p{c.AnyFloat(), c.AnyFloat()}; m.AppendVertex(p); Vals v = w.Zero(); v[w.pos()] = {p.x, p.y}; w.vertices.push_back(v); break; }
      case 1: if (nv) {
        size_t v = c.Choice(nv - 1), a = c.Choice(w.vertices[v].size() - 1);
        for (float& f : w.vertices[v][a]) f = c.AnyFloat();
        m.SetFloatVertexAttribute(v, a, Small(w.vertices[v][a]));
        break;
      } [[fallthrough]];
      case 2: if (nv) { size_t v = c.Choice(nv - 1); Point p{c.AnyFloat(), c.AnyFloat()}; m.SetVertexPosition(v, p); w.vertices[v][w.pos()] = {p.x, p.y}; } break;
      case 3: { Tri x = tri(); m.AppendTriangleIndices(x); w.triangles.push_back(x); break; }
      case 4: { Tri x = tri(); size_t i = c.Choice(nt); m.InsertTriangleIndices(i, x); w.triangles.insert(w.triangles.begin() + i, x); break; }
      case 5: if (nt) { Tri x = tri(); size_t i = c.Choice(nt - 1); m.SetTriangleIndices(i, x); w.triangles[i] = x; } break;
      case 6: {
        size_t v = c.Choice(nv + 3), t = c.Choice(nt + 3);
        m.Resize(v, t);
        removal |= v < nv || t < nt;
        w.vertices.resize(v, w.Zero());
        w.triangles.resize(t, Tri{0, 0, 0});
        break;
      }
      case 7: m.Clear(); removal |= nv || nt; w.vertices.clear(); w.triangles.clear(); break;
      case 8: w.format = GenFormat(c, 4); m.Reset(w.format); removal |= nv || nt; w.vertices.clear(); w.triangles.clear(); break;
      case 9: spare = m.Clone(); spare_w = w; break;
      default: if (spare) { std::swap(m, *spare); std::swap(w, spare_w); } else { MutableMesh n(std::move(m)); m = std::move(n); } break;
    }
    Compare(m, w);
    if (spare) Compare(*spare, spare_w);
  }
  c.NonTrivial(removal && edits >= 5);
  c.Note("steps ", steps, " vertices ", w.vertices.size(), " triangles ", w.triangles.size());
  if (c.Chance(1, 4)) {
    Model d{MeshFormat(), {}, {}};
    Compare(MutableMesh(), d);
  }
}

PBT(conversion, 6, "two triangles or more, and an attribute that is packed, left out or unused by some vertex") {
  Model w;
  w.format = GenFormat(c, 4);
  int nv = c.Len(3, 14), nt = c.Len(0, 12);
  auto attrs = w.format.Attributes();
  std::vector<float> base;
  for (int v = 0; v < nv; ++v) {
    Vals x = w.Zero();
    for (auto& a : x) for (float& f : a) f = c.Moderate(50);
    w.vertices.push_back(x);
  }
  for (int t = 0; t < nt; ++t) {
    Tri x{(uint32_t)c.Choice(nv - 1), 0, 0};
    x[1] = (x[0] + 1 + c.Choice(nv - 2)) % nv;
    do x[2] = (x[2] + c.Choice(nv - 1)) % nv, x[2] = x[2] == x[0] || x[2] == x[1] ? (x[2] + 1) % nv : x[2]; while (x[2] == x[0] || x[2] == x[1]);
    w.triangles.push_back(x);
  }
  std::vector<I> omit;
  bool bad_omit = false, nonfinite = false, bad_tri = false;
  for (const auto& a : attrs) if (a.id != I::kPosition && c.Chance(1, 5)) omit.push_back(a.id);
  if (c.Chance(1, 25)) { omit.push_back(c.Bool() ? I::kPosition : (I)12); bad_omit = true; }
  if (c.Chance(1, 12)) {
    int v = c.Int(0, nv - 1), a = (int)c.Choice(attrs.size() - 1);
    w.vertices[v][a][c.Choice(w.vertices[v][a].size() - 1)] = c.PickOf<float>({INFINITY, -INFINITY, NAN});
    nonfinite = std::find(omit.begin(), omit.end(), attrs[a].id) == omit.end();
  }
  if (nt && c.Chance(1, 15)) { auto& x = w.triangles[c.Choice(nt - 1)]; if (c.Bool()) x[c.Choice(2)] = nv + c.Choice(3); else x[1] = x[c.Bool() ? 0 : 2]; bad_tri = true; }
  std::vector<std::optional<MeshAttributeCodingParams>> params;
  bool bad_params = false;
  if (omit.empty() && c.Chance(1, 4)) {
    for (const auto& a : attrs) {
      const Row& r = Find(a.type);
      params.emplace_back();
      if (r.bits.empty() || c.Bool()) continue;
      params.back().emplace();
      params.back()->components.Resize(r.comps);
      for (int k = 0; k < r.comps; ++k) {
        float lo = c.UniformF(-1100, -1001), hi = c.UniformF(1001, 1100);
        if (c.Chance(1, 40)) { lo = 1200; bad_params = true; }
        params.back()->components[k] = {.offset = lo, .scale = (hi + 1000 - std::min(lo, 0.f)) / (float)((1u << r.bits[k]) - 1)};
      }
    }
    if (c.Chance(1, 20)) { params.emplace_back(); bad_params = true; }
  }
  MutableMesh m(w.format);
  m.Resize(nv, nt);
  for (int v = 0; v < nv; ++v) for (size_t a = 0; a < attrs.size(); ++a) m.SetFloatVertexAttribute(v, a, Small(w.vertices[v][a]));
  for (int t = 0; t < nt; ++t) m.SetTriangleIndices(t, w.triangles[t]);
  c.Note("format ", absl::StrCat(w.format), " vertices ", nv, " triangles ", nt, " omit ", omit.size());
  auto r = m.AsMeshes(params, omit);
  Compare(m, w);
  if (nt == 0) {
    PROP(r.ok() && r->empty(), "no-triangles-no-meshes", r.status().ToString());
    return;
  }
  bool bad = bad_omit || nonfinite || bad_tri || bad_params;
  PROP(r.ok() == !bad, "accepted-exactly-when-valid", r.status().ToString());
  c.Label("refused", bad);
  if (bad) {
    auto code = r.status().code();
    PROP(code == absl::StatusCode::kFailedPrecondition || code == absl::StatusCode::kInvalidArgument, "error-kind", r.status().ToString());
    if (!bad_omit && !bad_params) PROP(code == absl::StatusCode::kFailedPrecondition, "error-kind", r.status().ToString());
    return;
  }
  bool packed = false;
  for (const auto& a : attrs) packed |= !Find(a.type).bits.empty();
  c.NonTrivial(nt >= 2 && (packed || !omit.empty()));
  CheckMeshes(c, *r, w, omit, params);
  PROP(r->size() == 1, "one-mesh", r->size());
  // and back
  MutableMesh f = MutableMesh::FromMesh((*r)[0]);
  const Mesh& s = (*r)[0];
  Model b{s.Format(), {}, {}};
  for (uint32_t v = 0; v < s.VertexCount(); ++v) {
    Vals x;
    for (size_t a = 0; a < s.Format().Attributes().size(); ++a) { auto g = s.FloatVertexAttribute(v, a); x.push_back({g.Values().begin(), g.Values().end()}); }
    b.vertices.push_back(x);
  }
  for (uint32_t t = 0; t < s.TriangleCount(); ++t) b.triangles.push_back(s.TriangleIndices(t));
  Compare(f, b);
  auto again = m.AsMeshes(params, omit);
  PROP(again.ok() && again->size() == 1 && std::equal(s.RawVertexData().begin(), s.RawVertexData().end(), (*again)[0].RawVertexData().begin()), "deterministic", "");
}

PBT(flips, 4, "a triangle is thinner than a step and no triangle is reversed to begin with") {
  // A strip or fan of triangles whose corners are fractions of a packing step apart, inside a frame that fixes the step.
  A type = c.PickOf<A>({A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat2PackedIn4UnsignedBytes_X12_Y20});
  auto f = MeshFormat::Create({{type, I::kPosition}}, X::k32BitUnpacked16BitPacked);
  PROP(f.ok(), "setup");
  Model w{*f, {}, {}};
  float sx = c.PickOf({1.f, 0.5f, 100.f}), sy = type == A::kFloat2PackedIn4UnsignedBytes_X12_Y20 ? c.PickOf({1.f, 1.f / 256}) : c.PickOf({1.f, 3.f}), ymax = type == A::kFloat2PackedIn4UnsignedBytes_X12_Y20 ? 1048575.f : 4095.f;
  float ox = c.PickOf({0.f, -50.f, 7.25f});
  auto add = [&](float x, float y) { w.vertices.push_back({{ox + x * sx, y * sy}}); return (uint32_t)w.vertices.size() - 1; };
  auto positive = [&](Tri t) { if (Area2(w.At(t[0]), w.At(t[1]), w.At(t[2])) < 0) std::swap(t[1], t[2]); return t; };
  uint32_t a = add(0, 0), b = add(4095, 0), d = add(0, ymax), e = add(4095, ymax);
  if (c.Bool()) { w.triangles.push_back({a, b, d}); w.triangles.push_back({b, e, d}); }
  else { w.triangles.push_back({a, b, e}); w.triangles.push_back({a, e, d}); }
  float cx = (float)c.Int(1, 4090), cy = (float)(c.Bool() ? c.Int(1, 4090) : c.Bool() ? (int)ymax - c.Int(5, 4094) : c.Int(1, (int)ymax - 5));
  int n = c.Len(1, 10), shape = (int)c.Choice(2);
  auto frac = [&] { return c.Chance(1, 3) ? (float)c.Int(0, 8) * 0.25f : c.UniformF(0, 3); };
  std::vector<uint32_t> v;
  for (int i = 0; i < n + 2; ++i) v.push_back(add(cx + (shape == 1 ? i * 0.4f : frac()), cy + frac() * (shape == 2 ? 0.3f : 1)));
  for (int i = 0; i < n; ++i) {
    Tri t = shape == 0 ? Tri{v[0], v[i + 1], v[i + 2]} : Tri{v[i], v[i + 1], v[i + 2]};
    w.triangles.push_back(positive(t));
  }
  if (c.Chance(1, 20)) std::swap(w.triangles.back()[0], w.triangles.back()[1]);
  MutableMesh m(w.format);
  for (auto& x : w.vertices) m.AppendVertex({x[0][0], x[0][1]});
  for (auto& t : w.triangles) m.AppendTriangleIndices(t);
  std::string text;
  for (auto& t : w.triangles) text += pbt::Cat(w.At(t[0]), w.At(t[1]), w.At(t[2]), "; ");
  c.Note(text);
  bool ok = true;
  for (auto& t : w.triangles) ok &= ink::Triangle{w.At(t[0]), w.At(t[1]), w.At(t[2])}.SignedArea() >= 0;
  c.NonTrivial(ok);
  auto r = m.AsMeshes();
  PROP(r.ok() && r->size() == 1, "accepted", r.status().ToString());
  CheckMeshes(c, *r, w, {}, {});
  // a lone flipped triangle away from the frame can always be put right by moving its corners back
  if (n == 1 && ok) {
    uint32_t t = (*r)[0].TriangleCount() - 1;
    PROP((*r)[0].GetTriangle(t).SignedArea() >= 0, "single-triangle-corrected", text);
  }
}

PBT(large, 1, "the whole case") {
  if (!c.Chance(1, 2000)) throw pbt::Discard{};
  auto f = MeshFormat::Create({{c.Bool() ? A::kFloat2Unpacked : A::kFloat2PackedIn1Float, I::kPosition}, {A::kFloat1PackedIn1UnsignedByte, (I)2}}, X::k32BitUnpacked16BitPacked);
  PROP(f.ok(), "setup");
  Model w{*f, {}, {}};
  int n = 65530 + c.Int(0, 4000);
  MutableMesh m(*f);
  for (int i = 0; i < n; ++i) {
    float x = (float)(i / 2), y = (float)(i % 2) * 10;
    w.vertices.push_back({{x, y}, {(float)(i % 251)}});
    m.AppendVertex({x, y});
    m.SetFloatVertexAttribute(i, 1, {(float)(i % 251)});
  }
  int skip = c.Int(0, 5);
  auto tri = [&](Tri t) { w.triangles.push_back(t); m.AppendTriangleIndices(t); };
  for (int i = skip; i + 2 < n; ++i) tri(i % 2 ? Tri{(uint32_t)i, (uint32_t)i + 1, (uint32_t)i + 2} : Tri{(uint32_t)i, (uint32_t)i + 2, (uint32_t)i + 1});
  for (int k = c.Int(0, 3); k > 0; --k) tri({(uint32_t)(10 + 2 * k), (uint32_t)(n - 1), (uint32_t)(n / 2)});
  c.NonTrivial();
  c.Note(n, " vertices");
  auto r = m.AsMeshes();
  PROP(r.ok(), "accepted", r.status().ToString());
  PROP((r->size() == 1) == (n - skip <= 65536), "parts", r->size(), " for ", n - skip);
  CheckMeshes(c, *r, w, {}, {});
  c.Label("several parts", r->size() > 1);
}
