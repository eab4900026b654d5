// The vertices stroke geometry is made of: labels and margins, interpolation, storage in meshes and packing for renderers.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/geo.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/stroke_vertex.h"

using ink::Mesh;
using ink::MeshAttributeCodingParams;
using ink::MeshFormat;
using ink::MutableMesh;
using ink::Point;
using ink::Vec;
using V = ink::strokes_internal::StrokeVertex;
using N = V::NonPositionAttributes;
using pbt::Ctx;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;
using X = MeshFormat::IndexFormat;

namespace {
int Sign(float v) { return (v > 0) - (v < 0); }
// A label made from one of the constants by limiting its margin, or not.
V::Label GenLabel(Ctx& c) {
  V::Label l = c.PickOf<V::Label>({V::kInteriorLabel, V::kExteriorLeftLabel, V::kExteriorRightLabel, V::kExteriorFrontLabel, V::kExteriorBackLabel});
  return c.Bool() ? l : l.WithMargin(c.UniformF(-1, 5));
}
Vec GenVec(Ctx& c) { return {c.Moderate(), c.Moderate()}; }
float GenShift(Ctx& c) { return c.Chance(1, 4) ? c.PickOf<float>({-1, 0, 1, -0.5f, 2, -3}) : c.UniformF(-1.5f, 1.5f); }
V GenVertex(Ctx& c) {
  V v;
  v.position = {c.Moderate(), c.Moderate()};
  N& n = v.non_position_attributes;
  n.opacity_shift = GenShift(c);
  for (float& h : n.hsl_shift) h = GenShift(c);
  n.side_derivative = GenVec(c);
  n.forward_derivative = GenVec(c);
  n.side_label = GenLabel(c);
  n.forward_label = GenLabel(c);
  n.surface_uv = {c.UniformF(0, 1), c.UniformF(0, 1)};
  return v;
}
std::string Text(const V& v) {
  const N& n = v.non_position_attributes;
  return pbt::Cat("at ", pbt::Show(v.position), " opacity ", n.opacity_shift, " hsl ", n.hsl_shift[0], ",", n.hsl_shift[1], ",", n.hsl_shift[2], " side ", pbt::Show(n.side_derivative), " label ", n.side_label.encoded_value, " forward ",
                  pbt::Show(n.forward_derivative), " label ", n.forward_label.encoded_value, " uv ", pbt::Show(n.surface_uv));
}
bool SameVertex(const V& a, const V& b) { return Text(a) == Text(b); }
V Clamped(V v) {
  N& n = v.non_position_attributes;
  n.opacity_shift = std::clamp(n.opacity_shift, -1.f, 1.f);
  for (float& h : n.hsl_shift) h = std::clamp(h, -1.f, 1.f);
  return v;
}

PBT(Labels, 2, "a margin strictly inside the range, or on its edge") {
  V::Label l = c.PickOf<V::Label>({V::kInteriorLabel, V::kExteriorLeftLabel, V::kExteriorRightLabel, V::kExteriorFrontLabel, V::kExteriorBackLabel});
  int history = c.Int(0, 2);
  for (int k = 0; k < history; ++k) l = l.WithMargin(c.UniformF(-1, 6));
  float m = c.Chance(1, 3) ? c.PickOf<float>({0, 4, -1, 5, 1, 2, 3, -0.f, 1e-20f, 1e30f, -1e30f, INFINITY, -INFINITY}) : c.Chance(1, 8) ? c.Near(c.Int(0, 126) * 4 / 126.f) : c.UniformF(0, 4);
  V::Label r = l.WithMargin(m), other = l.WithMargin(c.UniformF(-1, 6)).WithMargin(m);
  c.Note("label ", l.encoded_value, " with margin ", m, " -> ", r.encoded_value);
  c.NonTrivial(l.encoded_value != 0 && m > 0 && m <= 4);
  PROP(r.DecodeSideCategory() == l.DecodeSideCategory() && r.DecodeForwardCategory() == l.DecodeForwardCategory(), "category", "limiting the margin changed the category");
  PROP(r.DerivativeOutsetSign() == l.DerivativeOutsetSign(), "sign", "limiting the margin changed the outset direction");
  PROP(other == r, "replace", "the margin depends on the label's earlier margin: ", other.encoded_value);
  PROP(r.encoded_value == std::floor(r.encoded_value) && std::abs(r.encoded_value) <= 127, "byte", "a label does not fit its byte");
  int s = Sign(l.encoded_value);
  PROP(l.DerivativeOutsetSign() == s, "sign", "outset sign ", l.DerivativeOutsetSign());
  PROP((l.DecodeSideCategory() == V::SideCategory::kExteriorLeft) == (s < 0) && (l.DecodeSideCategory() == V::SideCategory::kInterior) == (s == 0) && (l.DecodeSideCategory() == V::SideCategory::kExteriorRight) == (s > 0), "category", "side");
  PROP((l.DecodeForwardCategory() == V::ForwardCategory::kExteriorFront) == (s < 0) && (l.DecodeForwardCategory() == V::ForwardCategory::kInterior) == (s == 0) && (l.DecodeForwardCategory() == V::ForwardCategory::kExteriorBack) == (s > 0), "category", "forward");
  if (s == 0) {
    PROP(r == V::kInteriorLabel && r.DecodeMargin() == 0, "interior", "an interior label has margin ", r.DecodeMargin());
    return;
  }
  double want = std::clamp((double)m, 0.0, 4.0), got = r.DecodeMargin();
  // Margins are stored in 126 steps, always rounded down so that no vertex may move further than allowed.
  PROP(got >= 0 && got <= 4, "range", "margin ", got);
  PROP(got <= want + 1e-5 && got > want - 4.0 / 126 - 1e-5, "margin", "margin ", m, " is read back as ", got);
  PROP(std::abs(r.WithMargin(r.DecodeMargin() + 1e-4f).encoded_value) == std::abs(r.encoded_value), "stable", "storing the read-back margin changed it");
  if (m >= 4) PROP(got == 4 && std::abs(r.encoded_value) == 127, "most", "the largest margin is not kept: ", got);
  if (m <= 0) PROP(got == 0, "least", "margin ", got);
}

// Value of a label between two: the same, or interior.
float LabelBetween(V::Label a, V::Label b, double t) {
  int sa = Sign(a.encoded_value), sb = Sign(b.encoded_value);
  if (sa == sb || t <= 0) return 127 * sa;
  if (t >= 1) return 127 * sb;
  return 0;
}
void CheckNumbers(const N& r, const N& a, const N& b, const N& z, double wa, double wb, double wz) {
  auto near = [&](double got, double x, double y, double w, const char* what) {
    double want = x * wa + y * wb + w * wz, scale = std::abs(x * wa) + std::abs(y * wb) + std::abs(w * wz) + std::abs(x) + std::abs(y);
    PROP(std::abs(got - want) <= 2e-6 * scale + 1e-30, what, got, " instead of ", want);
  };
  near(r.opacity_shift, a.opacity_shift, b.opacity_shift, z.opacity_shift, "opacity");
  for (int k = 0; k < 3; ++k) near(r.hsl_shift[k], a.hsl_shift[k], b.hsl_shift[k], z.hsl_shift[k], "hsl");
  near(r.surface_uv.x, a.surface_uv.x, b.surface_uv.x, z.surface_uv.x, "u");
  near(r.surface_uv.y, a.surface_uv.y, b.surface_uv.y, z.surface_uv.y, "v");
  PROP(r.side_derivative == Vec() && r.forward_derivative == Vec(), "derivative", "derivatives are kept");
}

PBT(Between, 2, "between or beyond two vertices with different labels") {
  N a = GenVertex(c).non_position_attributes, b = GenVertex(c).non_position_attributes;
  float t = c.Chance(1, 3) ? c.PickOf<float>({0, 1, -0.f, 0.5f, 2, -1}) : c.Chance(1, 4) ? c.Near(c.Bool() ? 1 : 0) : c.UniformF(-0.5f, 1.5f);
  V va, vb;
  va.non_position_attributes = a, vb.non_position_attributes = b;
  c.Note("t ", t, " between ", Text(va), " and ", Text(vb));
  c.NonTrivial(a.side_label != b.side_label || a.forward_label != b.forward_label);
  N r = Lerp(a, b, t);
  CheckNumbers(r, a, b, a, 1 - (double)t, t, 0);
  PROP(r.side_label.encoded_value == LabelBetween(a.side_label, b.side_label, t), "side label", r.side_label.encoded_value);
  PROP(r.forward_label.encoded_value == LabelBetween(a.forward_label, b.forward_label, t), "forward label", r.forward_label.encoded_value);
  // Swapping the ends is the same point.
  N q = Lerp(b, a, 1 - t);
  if (1 - (1 - t) == t) PROP(q.side_label == r.side_label && q.forward_label == r.forward_label, "swap", "labels depend on the direction");
}

PBT(Inside, 2, "a point of a triangle's edge line, or a corner") {
  N v[3];
  for (N& x : v) x = GenVertex(c).non_position_attributes;
  std::array<float, 3> t;
  int kind = (int)c.Choice(3), e = (int)c.Choice(2);
  float u = c.Chance(1, 4) ? c.PickOf<float>({0, 1, 2, -1}) : c.UniformF(-0.5f, 1.5f);
  if (kind == 0) {  // anywhere
    t = {c.UniformF(-1, 1), c.UniformF(-1, 1), 0};
    t[2] = 1 - t[0] - t[1];
  } else if (kind == 1) {  // a corner
    t = {0, 0, 0};
    t[e] = 1;
  } else {  // on the line of an edge
    t[e] = 0, t[(e + 1) % 3] = 1 - u, t[(e + 2) % 3] = u;
  }
  c.Note("t ", t[0], ", ", t[1], ", ", t[2]);
  for (const N& x : v) {
    V vx;
    vx.non_position_attributes = x;
    c.Note("corner ", Text(vx));
  }
  c.NonTrivial(kind != 0);
  N r = BarycentricLerp(v[0], v[1], v[2], t);
  CheckNumbers(r, v[0], v[1], v[2], t[0], t[1], t[2]);
  auto label = [&](V::Label N::* m, const char* tag) {
    float want = 0;
    int zeros = (t[0] == 0) + (t[1] == 0) + (t[2] == 0);
    if (zeros >= 1) {
      int z = t[0] == 0 ? 0 : t[1] == 0 ? 1 : 2, x = z == 0 ? 1 : 0, y = z == 2 ? 1 : 2;
      want = LabelBetween(v[x].*m, v[y].*m, t[y]);
    }
    PROP((r.*m).encoded_value == want, tag, (r.*m).encoded_value, " instead of ", want);
  };
  label(&N::side_label, "side label");
  label(&N::forward_label, "forward label");
  // The order of the corners does not matter.
  int p[3] = {0, 1, 2};
  std::swap(p[c.Choice(2)], p[c.Choice(2)]);
  N q = BarycentricLerp(v[p[0]], v[p[1]], v[p[2]], {t[p[0]], t[p[1]], t[p[2]]});
  if (t[0] + t[1] + t[2] == 1 && kind != 2) PROP(q.side_label == r.side_label && q.forward_label == r.forward_label, "order", "labels depend on the order of the corners");
}

PBT(Storage, 3, "several setters between vertices of one mesh") {
  MutableMesh mesh(V::FullMeshFormat());
  std::vector<V> model;
  int steps = c.Len(1, 20), sets = 0;
  for (int s = 0; s < steps; ++s) {
    int op = model.empty() ? 0 : c.Weighted({3, 2, 1, 1, 1, 1, 1});
    uint32_t i = model.empty() ? 0 : (uint32_t)c.Choice(model.size() - 1);
    if (op >= 2) ++sets;
    switch (op) {
      case 0: {
        V v = GenVertex(c);
        c.Note("append ", Text(v));
        V::AppendToMesh(mesh, v);
        model.push_back(Clamped(v));
        break;
      }
      case 1: {
        V v = GenVertex(c);
        c.Note("set ", i, " to ", Text(v));
        V::SetInMesh(mesh, i, v);
        model[i] = Clamped(v);
        break;
      }
      case 2: case 3: {
        Vec d = GenVec(c);
        c.Note("derivative ", op - 2, " of ", i, " to ", pbt::Show(d));
        if (op == 2) V::SetSideDerivativeInMesh(mesh, i, d), model[i].non_position_attributes.side_derivative = d;
        else V::SetForwardDerivativeInMesh(mesh, i, d), model[i].non_position_attributes.forward_derivative = d;
        break;
      }
      case 4: case 5: {
        V::Label l = GenLabel(c);
        c.Note("label ", op - 4, " of ", i, " to ", l.encoded_value);
        if (op == 4) V::SetSideLabelInMesh(mesh, i, l), model[i].non_position_attributes.side_label = l;
        else V::SetForwardLabelInMesh(mesh, i, l), model[i].non_position_attributes.forward_label = l;
        break;
      }
      default: {
        Point uv{c.UniformF(0, 1), c.UniformF(0, 1)};
        c.Note("uv of ", i, " to ", pbt::Show(uv));
        V::SetSurfaceUvInMesh(mesh, i, uv);
        model[i].non_position_attributes.surface_uv = uv;
      }
    }
    PROP(mesh.VertexCount() == model.size(), "count", mesh.VertexCount(), " vertices");
    for (uint32_t k = 0; k < model.size(); ++k) {
      V got = V::GetFromMesh(mesh, k);
      const N& want = model[k].non_position_attributes;
      PROP(SameVertex(got, model[k]), "vertex", "vertex ", k, " is ", Text(got), " instead of ", Text(model[k]));
      PROP(mesh.VertexPosition(k) == model[k].position, "position", "position of ", k);
      PROP(V::GetSideDerivativeFromMesh(mesh, k) == want.side_derivative && V::GetForwardDerivativeFromMesh(mesh, k) == want.forward_derivative, "derivative", "of ", k);
      PROP(V::GetSideLabelFromMesh(mesh, k) == want.side_label && V::GetForwardLabelFromMesh(mesh, k) == want.forward_label, "label", "of ", k);
      PROP(V::GetSurfaceUvFromMesh(mesh, k) == want.surface_uv, "uv", "of ", k);
      // The mesh's own view of the attributes, by their meaning.
      auto at = V::FindAttributeIndices(mesh.Format());
      PROP(at.position == 0 && at.opacity_shift == 1 && at.hsl_shift == 2 && at.side_derivative == 3 && at.side_label == 4 && at.forward_derivative == 5 && at.forward_label == 6 && at.surface_uv == 7, "indices", "full format");
      PROP(mesh.FloatVertexAttribute(k, at.opacity_shift)[0] == want.opacity_shift && mesh.FloatVertexAttribute(k, at.hsl_shift)[2] == want.hsl_shift[2] && mesh.FloatVertexAttribute(k, at.side_label)[0] == want.side_label.encoded_value &&
               mesh.FloatVertexAttribute(k, at.forward_derivative)[1] == want.forward_derivative.y, "attribute", "of ", k);
    }
  }
  c.NonTrivial(sets >= 3 && model.size() >= 2);
}

const std::vector<I> kIds = {I::kPosition, I::kColorShiftHsl, I::kOpacityShift, I::kTexture, I::kSideDerivative, I::kSideLabel, I::kForwardDerivative, I::kForwardLabel, I::kSurfaceUv, I::kCustom0, I::kCustom1};
const std::vector<A> kTypes = {A::kFloat1Unpacked, A::kFloat1PackedIn1UnsignedByte, A::kFloat2Unpacked, A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat2PackedIn4UnsignedBytes_X12_Y20, A::kFloat3Unpacked,
                               A::kFloat3PackedIn1Float, A::kFloat3PackedIn2Floats, A::kFloat3PackedIn4UnsignedBytes_XYZ10, A::kFloat4Unpacked, A::kFloat4PackedIn1Float, A::kFloat4PackedIn2Floats, A::kFloat4PackedIn3Floats};

PBT(Packing, 2, "a format with skipped attributes and at least two that have fixed packing") {
  // Any format of up to eight attributes in any order.
  std::vector<I> ids = kIds;
  for (size_t k = ids.size(); k > 1; --k) std::swap(ids[k - 1], ids[c.Choice(k - 1)]);
  int n = c.Len(1, 8);
  auto p = std::find(ids.begin(), ids.end(), I::kPosition);
  if (p - ids.begin() >= n) std::swap(*p, ids[c.Choice(n - 1)]);
  std::vector<std::pair<A, I>> a;
  for (int k = 0; k < n; ++k) {
    A natural = ids[k] == I::kOpacityShift || ids[k] == I::kSideLabel || ids[k] == I::kForwardLabel ? A::kFloat1PackedIn1UnsignedByte : ids[k] == I::kColorShiftHsl ? A::kFloat3PackedIn4UnsignedBytes_XYZ10
              : ids[k] == I::kSurfaceUv ? A::kFloat2PackedIn4UnsignedBytes_X12_Y20 : kTypes[c.Choice(kTypes.size() - 1)];
    if (ids[k] == I::kPosition) natural = c.PickOf<A>({A::kFloat2Unpacked, A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat2PackedIn4UnsignedBytes_X12_Y20});
    else if (c.Chance(1, 4)) natural = kTypes[c.Choice(kTypes.size() - 1)];
    a.push_back({natural, ids[k]});
  }
  auto f = MeshFormat::Create(a, X::k32BitUnpacked16BitPacked);
  PROP(f.ok(), "setup", f.status().ToString());
  std::vector<I> skip;
  for (I id : kIds) if (c.Chance(1, 6)) skip.push_back(id);
  auto at = V::FindAttributeIndices(*f);
  auto index = [&](I id) {
    for (int k = 0; k < n; ++k) if (a[k].second == id) return k;
    return -1;
  };
  PROP(at.position == index(I::kPosition) && at.opacity_shift == index(I::kOpacityShift) && at.hsl_shift == index(I::kColorShiftHsl) && at.side_derivative == index(I::kSideDerivative) && at.side_label == index(I::kSideLabel) &&
           at.forward_derivative == index(I::kForwardDerivative) && at.forward_label == index(I::kForwardLabel) && at.surface_uv == index(I::kSurfaceUv), "indices", "attribute indices of a format");
  auto got = V::MakeCustomPackingArray(*f, skip);
  std::vector<std::optional<MeshAttributeCodingParams>> want;
  int fixed = 0, skipped = 0;
  std::string text;
  for (auto& [type, id] : a) {
    text += pbt::Cat(" ", (int)id, ":", (int)type);
    if (std::count(skip.begin(), skip.end(), id)) { ++skipped; text += "-"; continue; }
    std::optional<MeshAttributeCodingParams> w;
    if (id == I::kOpacityShift && type == A::kFloat1PackedIn1UnsignedByte) w = MeshAttributeCodingParams{.components = {{.offset = -1, .scale = 2.f / 254}}};
    if (id == I::kColorShiftHsl && type == A::kFloat3PackedIn4UnsignedBytes_XYZ10) w = MeshAttributeCodingParams{.components = {{.offset = -1, .scale = 2.f / 1022}, {.offset = -1, .scale = 2.f / 1022}, {.offset = -1, .scale = 2.f / 1022}}};
    if ((id == I::kSideLabel || id == I::kForwardLabel) && type == A::kFloat1PackedIn1UnsignedByte) w = MeshAttributeCodingParams{.components = {{.offset = -128, .scale = 1}}};
    if (id == I::kSurfaceUv && type == A::kFloat2PackedIn4UnsignedBytes_X12_Y20) w = MeshAttributeCodingParams{.components = {{.offset = 0, .scale = 1.f / 4095}, {.offset = 0, .scale = 1.f / 1048575}}};
    if (w) ++fixed;
    want.push_back(w);
  }
  c.Note("format", text);
  c.NonTrivial(fixed >= 2 && skipped >= 1);
  PROP((size_t)got.Size() == want.size(), "length", (int)got.Size(), " packing entries instead of ", want.size());
  for (size_t k = 0; k < want.size(); ++k) {
    const auto& g = got[k];
    PROP(g.has_value() == want[k].has_value(), "which", "entry ", k, " has fixed packing: ", g.has_value());
    if (!g) continue;
    PROP(g->components.Size() == want[k]->components.Size(), "components", "entry ", k);
    for (int q = 0; q < (int)g->components.Size(); ++q)
      PROP(g->components[q].offset == want[k]->components[q].offset && pbt::NearRel(g->components[q].scale, want[k]->components[q].scale, 1e-6), "packing", "entry ", k, " component ", q, " offset ", g->components[q].offset, " scale ", g->components[q].scale);
  }
}

PBT(Packed, 2, "three or more vertices with exterior labels and shifts") {
  MutableMesh mesh(V::FullMeshFormat());
  std::vector<V> model;
  int n = c.Len(3, 9), exterior = 0;
  for (int k = 0; k < n; ++k) {
    V v = GenVertex(c);
    V::AppendToMesh(mesh, v);
    v = Clamped(v);
    model.push_back(v);
    exterior += v.non_position_attributes.side_label.encoded_value != 0;
    c.Note(Text(v));
  }
  for (int k = 2; k < n; ++k) mesh.AppendTriangleIndices({0, (uint32_t)k - 1, (uint32_t)k});
  std::vector<I> omit;
  for (I id : {I::kColorShiftHsl, I::kOpacityShift, I::kSurfaceUv, I::kForwardLabel}) if (c.Chance(1, 5)) omit.push_back(id);
  auto packing = V::MakeCustomPackingArray(mesh.Format(), omit);
  auto meshes = mesh.AsMeshes(packing.Values(), omit);
  if (!meshes.ok()) throw pbt::Discard{};  // folded triangles or the like are judged elsewhere
  PROP(meshes->size() == 1 && (*meshes)[0].VertexCount() == (uint32_t)n, "size", "parts ", meshes->size());
  const Mesh& m = (*meshes)[0];
  c.NonTrivial(exterior >= 2);
  auto at = V::FindAttributeIndices(m.Format());
  for (I id : omit) PROP((id == I::kColorShiftHsl ? at.hsl_shift : id == I::kOpacityShift ? at.opacity_shift : id == I::kSurfaceUv ? at.surface_uv : at.forward_label) == -1, "omit", "an omitted attribute is still there");
  PROP(at.position >= 0 && at.side_derivative >= 0 && at.forward_derivative >= 0 && at.side_label >= 0, "lost", "an attribute is missing");
  for (int k = 0; k < n; ++k) {
    const N& w = model[k].non_position_attributes;
    // Labels, and no change of color, are kept exactly; the rest within half a step.
    PROP(m.FloatVertexAttribute(k, at.side_label)[0] == w.side_label.encoded_value, "side label", m.FloatVertexAttribute(k, at.side_label)[0], " instead of ", w.side_label.encoded_value);
    if (at.forward_label >= 0) PROP(m.FloatVertexAttribute(k, at.forward_label)[0] == w.forward_label.encoded_value, "forward label", m.FloatVertexAttribute(k, at.forward_label)[0], " instead of ", w.forward_label.encoded_value);
    auto shift = [&](float got, float want, double step, const char* what) {
      PROP(std::abs((double)got - want) <= step / 2 + 1e-6, what, got, " instead of ", want);
      if (want == 0 || want == 1 || want == -1) PROP(std::abs(got - want) < 2e-7, "exact", what, " ", want, " became ", got);
    };
    if (at.opacity_shift >= 0) shift(m.FloatVertexAttribute(k, at.opacity_shift)[0], w.opacity_shift, 2.0 / 254, "opacity");
    if (at.hsl_shift >= 0)
      for (int q = 0; q < 3; ++q) shift(m.FloatVertexAttribute(k, at.hsl_shift)[q], w.hsl_shift[q], 2.0 / 1022, "hsl");
    if (at.surface_uv >= 0) {
      PROP(std::abs(m.FloatVertexAttribute(k, at.surface_uv)[0] - w.surface_uv.x) <= 0.5 / 4095 + 1e-6, "u", m.FloatVertexAttribute(k, at.surface_uv)[0], " instead of ", w.surface_uv.x);
      PROP(std::abs(m.FloatVertexAttribute(k, at.surface_uv)[1] - w.surface_uv.y) <= 0.5 / 1048575 + 1e-6, "v", m.FloatVertexAttribute(k, at.surface_uv)[1], " instead of ", w.surface_uv.y);
    }
  }
}
}  // namespace
