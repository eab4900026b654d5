// The shader programs offered to renderers, run by an interpreter on mesh bytes, against the documented
// anti-aliasing and colour model in double precision.
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/sksl.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"

using ink::Mesh;
using ink::MeshFormat;
using ink::MutableMesh;
using ink::skia_common_internal::MeshSpecificationData;
using ink::strokes_internal::StrokeVertex;
using pbt::Ctx;
using sksl::Val;
using Data = MeshSpecificationData;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;

namespace {
struct Vert {  // one vertex, as plain numbers
  double pos[2], opacity, hsl[3], side[2], side_label, fwd[2], fwd_label, uv[2];
};
struct Uniforms { double lin[4], color[4]; int mapping; bool shifts_colour = true; };
struct Out { double pos[2], tex[2], color[4], ppd[2], edge[4], outset[4]; };

double Sat(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
double Mix(double a, double b, double t) { return a + (b - a) * t; }
double Target(double w) { return Mix(0.5, 0.707107, Sat(2 * (w - 0.5))); }
double Sign(double x) { return (x > 0) - (x < 0); }

Out RefVertex(const Vert& v, const Uniforms& u) {
  Out o;
  const double *m = u.lin, *d[2] = {v.side, v.fwd};
  double label[2] = {v.side_label, v.fwd_label};
  double det = std::abs(m[0] * m[3] - m[2] * m[1]);
  for (int k = 0; k < 2; ++k) {
    double rx = -d[k][1], ry = d[k][0];
    double tx = m[0] * rx + m[2] * ry, ty = m[1] * rx + m[3] * ry;
    o.ppd[k] = det * (d[k][0] * d[k][0] + d[k][1] * d[k][1]) / std::max(1e-6, std::hypot(tx, ty));
    o.edge[2 * k] = label[k] < 0 ? 0 : 1;
    o.edge[2 * k + 1] = label[k] > 0 ? 0 : 1;
  }
  double target = Target(o.ppd[0]);
  double move[2][2];
  for (int k = 0; k < 2; ++k) {
    double t = target / o.ppd[k];
    double margin = label[k] == 0 ? 0 : 4.0 / 126 * (std::abs(label[k]) - 1);
    double out = std::min(t, margin);
    if (k == 0) out = Mix(t, out, Sat(4 * o.ppd[0] - 1));
    for (int e = 0; e < 2; ++e) o.outset[2 * k + e] = (1 - o.edge[2 * k + e]) * target * (out / t);
    for (int e = 0; e < 2; ++e) move[k][e] = Sign(label[k]) * out * d[k][e];
  }
  double common = Sat((move[0][0] * move[1][0] + move[0][1] * move[1][1]) /
                      std::max(1e-6, move[1][0] * move[1][0] + move[1][1] * move[1][1]));
  for (int e = 0; e < 2; ++e) o.pos[e] = v.pos[e] + move[0][e] + (1 - common) * move[1][e];
  double r = u.color[0], g = u.color[1], b = u.color[2];
  double y = .299 * r + .587 * g + .114 * b, i = .596 * r - .275 * g - .321 * b, q = .212 * r - .523 * g + .311 * b;
  double hue = std::atan2(q, i) - v.hsl[0] * 2 * M_PI, chroma = std::hypot(i, q) * (1 + v.hsl[1]);
  y += v.hsl[2];
  i = chroma * std::cos(hue), q = chroma * std::sin(hue);
  double a = Sat((1 + v.opacity) * u.color[3]);
  o.color[0] = (y + .956 * i + .621 * q) * a;
  o.color[1] = (y - .272 * i - .647 * q) * a;
  o.color[2] = (y - 1.107 * i + 1.704 * q) * a;
  o.color[3] = a;
  if (!u.shifts_colour)
    for (int e = 0; e < 3; ++e) o.color[e] = u.color[e] * a;
  for (int e = 0; e < 2; ++e) o.tex[e] = u.mapping == 1 ? v.uv[e] : o.pos[e];
  return o;
}
// Coverage of a fragment of the triangle with the given interpolated values.
double RefCoverage(const Out& f) {
  double target = Target(f.ppd[0]), cov = 1;
  for (int k = 0; k < 2; ++k) {
    double e0 = f.edge[2 * k], e1 = f.edge[2 * k + 1];
    if (e0 + e1 >= 1.9999) continue;
    double px = f.ppd[k];
    double o0 = std::min(f.outset[2 * k] / std::max(1 - e0, 1e-6), target), o1 = std::min(f.outset[2 * k + 1] / std::max(1 - e1, 1e-6), target);
    px += o0 + o1;
    cov *= std::max(0.0, Sat(px * e0 / (2 * target)) + Sat(px * e1 / (2 * target)) - 1);
  }
  return cov;
}

int Width(Data::AttributeType t) {
  switch (t) {
    case Data::AttributeType::kFloat2: return 2;
    case Data::AttributeType::kFloat3: return 3;
    case Data::AttributeType::kUByte4: return 4;
  }
  return 0;
}
int Width(Data::VaryingType t) { return t == Data::VaryingType::kFloat2 ? 2 : t == Data::VaryingType::kFloat4 ? 4 : 0; }

struct Shaders { std::unique_ptr<sksl::Program> vertex, fragment; };
Shaders& Compiled(const Data& d) {
  static std::map<std::string, Shaders> cache;
  std::string key = d.vertex_shader_source + "\1" + d.fragment_shader_source;
  for (const auto& a : d.attributes.Values()) key += pbt::Cat("\1", a.name, ":", a.type);
  for (const auto& a : d.varyings.Values()) key += pbt::Cat("\1", a.name, ":", a.type);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  if (cache.size() > 200) cache.clear();
  std::map<std::string, int> at, va;
  for (const auto& a : d.attributes.Values()) at[std::string(a.name)] = Width(a.type);
  for (const auto& a : d.varyings.Values()) va[std::string(a.name)] = Width(a.type);
  va["position"] = 2;
  Shaders s;
  try {
    s.vertex = std::make_unique<sksl::Program>(std::string(d.vertex_shader_source));
    s.vertex->structs["Attributes"] = at;
    s.vertex->structs["Varyings"] = va;
    s.fragment = std::make_unique<sksl::Program>(std::string(d.fragment_shader_source));
    s.fragment->structs["Varyings"] = va;
  } catch (const sksl::Error& e) {
    pbt::Fail("shader-valid", pbt::Cat("shader does not parse: ", std::string(e.what())));
  }
  return cache[key] = std::move(s);
}

Val StructOf(const std::string& type) { Val v; v.kind = Val::kStruct; v.type = type; return v; }

// The vertex attribute values a GPU loads for one vertex.
Val Load(const Data& d, const std::byte* vertex) {
  Val at = StructOf("Attributes");
  for (const auto& a : d.attributes.Values()) {
    Val x;
    x.kind = Val::kNum;
    x.n = Width(a.type);
    for (int k = 0; k < x.n; ++k) {
      if (a.type == Data::AttributeType::kUByte4) x.v[k] = (float)(unsigned char)vertex[a.offset + k] / 255.0f;
      else std::memcpy(&x.v[k], vertex + a.offset + 4 * k, 4);
    }
    at.fields[std::string(a.name)] = x;
  }
  return at;
}

Uniforms GenUniforms(Ctx& c) {
  Uniforms u;
  double th = c.Uniform(0, 2 * M_PI), sx = std::exp2(c.Uniform(-4, 5)), sy = sx * std::exp2(c.Uniform(-2, 2)), sh = c.Chance(1, 2) ? 0 : c.Uniform(-1, 1);
  if (c.Chance(1, 4)) sy = -sy;
  if (c.Chance(1, 4)) th = M_PI / 2 * (double)c.Choice(3);
  double m[4] = {std::cos(th) * sx, std::sin(th) * sx, (std::cos(th) * sh - std::sin(th)) * sy, (std::sin(th) * sh + std::cos(th)) * sy};
  for (int k = 0; k < 4; ++k) u.lin[k] = (float)m[k];
  bool wide = c.Chance(1, 4);
  for (int k = 0; k < 3; ++k) u.color[k] = c.Chance(1, 4) ? (float)c.Choice(1) : c.UniformF(wide ? -0.5 : 0, wide ? 1.5 : 1);
  u.color[3] = c.Bool() ? 1 : c.UniformF(0, 1);
  u.mapping = (int)c.Choice(1);
  return u;
}
float Label(Ctx& c) {
  switch (c.Choice(3)) {
    case 0: return 0;
    case 1: return c.PickOf<float>({127.f, -127.f, 1.f, -1.f, 2.f, -2.f});
    default: return (float)c.Signed(-127, 127);
  }
}
float Shift(Ctx& c) { return c.Chance(1, 3) ? 0 : c.Chance(1, 4) ? c.PickOf<float>({1.f, -1.f, 0.5f}) : c.UniformF(-1, 1); }
void Deriv(Ctx& c, double* d, double scale) {
  double th = c.Chance(1, 3) ? M_PI / 2 * (double)c.Choice(3) : c.Uniform(0, 2 * M_PI), r = scale * std::exp2(c.Uniform(-2, 2));
  d[0] = (float)(r * std::cos(th));
  d[1] = (float)(r * std::sin(th));
}
Vert GenVert(Ctx& c, double scale) {
  Vert v;
  for (double& p : v.pos) p = c.Moderate(200);
  v.opacity = Shift(c);
  for (double& h : v.hsl) h = Shift(c);
  Deriv(c, v.side, scale);
  if (c.Chance(1, 5)) { double k = (float)c.Uniform(-1, 2); v.fwd[0] = (float)(v.side[0] * k), v.fwd[1] = (float)(v.side[1] * k); if (v.fwd[0] == 0 && v.fwd[1] == 0) v.fwd[0] = 1; } else Deriv(c, v.fwd, scale);
  v.side_label = Label(c);
  v.fwd_label = Label(c);
  for (double& p : v.uv) p = c.Chance(1, 3) ? (float)c.Choice(1) : c.UniformF(0, 1);
  return v;
}
std::map<std::string, Val> UniformVals(const Data& d, const Uniforms& u, const Mesh* mesh) {
  std::map<std::string, Val> r;
  auto f4 = [](const double* p) { return Val::Vec({(float)p[0], (float)p[1], (float)p[2], (float)p[3]}); };
  for (const auto& x : d.uniforms.Values()) {
    Val v;
    switch (x.id) {
      case Data::UniformId::kObjectToCanvasLinearComponent: v = f4(u.lin); break;
      case Data::UniformId::kBrushColor: v = f4(u.color); break;
      case Data::UniformId::kTextureMapping: v = Val::F((float)u.mapping); break;
      default: {
        PROP(mesh && x.unpacking_attribute_index.has_value(), "uniform-index", "id ", (int)x.id);
        const auto& p = mesh->VertexAttributeUnpackingParams(*x.unpacking_attribute_index);
        PROP(p.components.Size() == 2, "uniform-index", "id ", (int)x.id);
        v = Val::Vec({p.components[0].offset, p.components[0].scale, p.components[1].offset, p.components[1].scale});
      }
    }
    r[std::string(Data::GetUniformName(x.id))] = v;
  }
  return r;
}
bool Close(double got, double want, double tol) { return std::abs(got - want) <= tol; }

// Runs the three vertices and some fragments of their triangle.
void RunTriangle(Ctx& c, const Data& d, const std::array<const std::byte*, 3>& bytes, const std::array<Vert, 3>& verts, const Uniforms& u,
                 const std::map<std::string, Val>& uv) {
  Shaders& sh = Compiled(d);
  std::array<Val, 3> var;
  std::array<Out, 3> ref;
  for (int k = 0; k < 3; ++k) {
    const Vert& v = verts[k];
    ref[k] = RefVertex(v, u);
    const Out& o = ref[k];
    try {
      std::vector<Val> args = {Load(d, bytes[k])};
      var[k] = sh.vertex->Call("main", args, uv);
    } catch (const sksl::Error& e) {
      pbt::Fail("shader-valid", pbt::Cat("vertex shader: ", std::string(e.what())));
    }
    const Val& p = var[k].fields["position"];
    double size = std::abs(v.pos[0]) + std::abs(v.pos[1]) + 5 * (std::hypot(v.side[0], v.side[1]) + std::hypot(v.fwd[0], v.fwd[1]));
    c.Note("vertex ", k, ": position (", v.pos[0], ", ", v.pos[1], ") side (", v.side[0], ", ", v.side[1], ") label ", v.side_label, " forward (", v.fwd[0], ", ", v.fwd[1],
           ") label ", v.fwd_label, " opacity ", v.opacity, " hsl ", v.hsl[0], " ", v.hsl[1], " ", v.hsl[2], " uv ", v.uv[0], " ", v.uv[1]);
    for (int e = 0; e < 2; ++e)
      PROP(Close(p[e], o.pos[e], 2e-5 * size + 1e-6), "outset-position", "component ", e, ": ", p[e], " expected ", o.pos[e]);
    // What the documentation promises about the outset: it never exceeds the margin or the target in pixels
    // unless the stroke is hair-thin, and interior vertices do not move.
    if (v.side_label == 0 && v.fwd_label == 0)
      PROP(Close(p[0], v.pos[0], 2e-5 * size) && Close(p[1], v.pos[1], 2e-5 * size), "interior-does-not-move", p[0], ", ", p[1]);
  }
  // Fragments: exact sixteenths keep the barycentric sums exact.
  for (int n = 0; n < 3; ++n) {
    int w0 = (int)c.Choice(16), w1 = (int)c.Choice(16 - w0);
    double w[3] = {w0 / 16.0, w1 / 16.0, (16 - w0 - w1) / 16.0};
    Val in = StructOf("Varyings");
    for (auto& [name, f0] : var[0].fields) {
      if (f0.kind != Val::kNum) continue;
      Val x = f0;
      for (int e = 0; e < x.n; ++e) x.v[e] = (float)(w[0] * f0.v[e] + w[1] * var[1].fields[name].v[e] + w[2] * var[2].fields[name].v[e]);
      in.fields[name] = x;
    }
    Out f{};
    auto mix = [&](auto get) { return w[0] * get(ref[0]) + w[1] * get(ref[1]) + w[2] * get(ref[2]); };
    for (int e = 0; e < 2; ++e) f.tex[e] = mix([&](const Out& o) { return o.tex[e]; }), f.ppd[e] = mix([&](const Out& o) { return o.ppd[e]; });
    for (int e = 0; e < 4; ++e) {
      f.color[e] = mix([&](const Out& o) { return o.color[e]; });
      f.edge[e] = mix([&](const Out& o) { return o.edge[e]; });
      f.outset[e] = mix([&](const Out& o) { return o.outset[e]; });
    }
    double cov = RefCoverage(f);
    Val color = Val::Undefined(4), tex;
    try {
      std::vector<Val> args = {in, color};
      tex = sh.fragment->Call("main", args, {});
      color = args[1];
    } catch (const sksl::Error& e) {
      pbt::Fail("shader-valid", pbt::Cat("fragment shader: ", std::string(e.what())));
    }
    PROP(tex.n == 2 && color.n == 4, "shader-valid");
    for (int e = 0; e < 4; ++e)
      PROP(Close(color[e], f.color[e] * cov, 3e-4 * (1 + std::abs(f.color[e]))), "fragment-colour", "channel ", e, ": ", color[e], " expected ", f.color[e] * cov, " (coverage ", cov,
           ", pixels ", f.ppd[0], " ", f.ppd[1], ", weights ", w0, " ", w1, ")");
    for (int e = 0; e < 2; ++e)
      PROP(Close(tex[e], f.tex[e], u.mapping == 1 ? 1e-5 : 2e-5 * (1200 + std::abs(f.tex[e]))), "texture-coordinates", tex[e], " expected ", f.tex[e]);
    c.Label("partly-covered", cov > 0 && cov < 1);
  }
}

A PickType(Ctx& c, std::initializer_list<A> l) { return c.PickOf<A>(l); }
}  // namespace

PBT(InProgressStrokeShader, 1, "at least one vertex is on the outside of the stroke") {
  static const Data d = Data::CreateForInProgressStroke();
  Uniforms u = GenUniforms(c);
  double scale = std::exp2(c.Uniform(-4, 4)) / std::hypot(u.lin[0], u.lin[1]) * 4;
  MutableMesh mesh(StrokeVertex::FullMeshFormat());
  std::array<Vert, 3> vs;
  for (Vert& v : vs) {
    v = GenVert(c, scale);
    c.NonTrivial(v.side_label || v.fwd_label);
    StrokeVertex s;
    s.position = {(float)v.pos[0], (float)v.pos[1]};
    auto& n = s.non_position_attributes;
    n.opacity_shift = (float)v.opacity;
    for (int k = 0; k < 3; ++k) n.hsl_shift[k] = (float)v.hsl[k];
    n.side_derivative = {(float)v.side[0], (float)v.side[1]};
    n.side_label = {(float)v.side_label};
    n.forward_derivative = {(float)v.fwd[0], (float)v.fwd[1]};
    n.forward_label = {(float)v.fwd_label};
    n.surface_uv = {(float)v.uv[0], (float)v.uv[1]};
    StrokeVertex::AppendToMesh(mesh, s);
  }
  PROP(d.vertex_stride == (int)mesh.VertexStride() && mesh.RawVertexData().size() == 3u * d.vertex_stride, "vertex-stride", d.vertex_stride);
  const std::byte* b = mesh.RawVertexData().data();
  RunTriangle(c, d, {b, b + d.vertex_stride, b + 2 * d.vertex_stride}, vs, u, UniformVals(d, u, nullptr));
}

PBT(FinishedStrokeShader, 1, "at least one attribute is stored packed and at least one vertex is on the outside") {
  std::vector<std::vector<std::pair<A, I>>> groups;
  bool packed_pos = c.Bool(), packed_side = c.Bool(), packed_fwd = c.Bool(), packed_hsl = c.Bool(), packed_uv = c.Bool();
  bool hsl = c.Chance(2, 3), uv = c.Chance(2, 3);
  groups.push_back({{packed_pos ? A::kFloat2PackedIn3UnsignedBytes_XY12 : A::kFloat2PackedIn1Float, I::kPosition},
                    {packed_pos ? A::kFloat1PackedIn1UnsignedByte : A::kFloat1Unpacked, I::kOpacityShift}});
  groups.push_back({{packed_side ? A::kFloat2PackedIn3UnsignedBytes_XY12 : A::kFloat2Unpacked, I::kSideDerivative},
                    {packed_side ? A::kFloat1PackedIn1UnsignedByte : A::kFloat1Unpacked, I::kSideLabel}});
  groups.push_back({{packed_fwd ? A::kFloat2PackedIn3UnsignedBytes_XY12 : A::kFloat2Unpacked, I::kForwardDerivative},
                    {packed_fwd ? A::kFloat1PackedIn1UnsignedByte : A::kFloat1Unpacked, I::kForwardLabel}});
  if (hsl) groups.push_back({{packed_hsl ? A::kFloat3PackedIn4UnsignedBytes_XYZ10 : A::kFloat3Unpacked, I::kColorShiftHsl}});
  if (uv) groups.push_back({{packed_uv ? A::kFloat2PackedIn4UnsignedBytes_X12_Y20 : A::kFloat2Unpacked, I::kSurfaceUv}});
  if ((hsl ? 1 : 0) + (uv ? 1 : 0) < 2 && c.Bool())
    groups.push_back({{PickType(c, {A::kFloat1Unpacked, A::kFloat4PackedIn3Floats, A::kFloat1PackedIn1UnsignedByte, A::kFloat3PackedIn1Float}), I::kCustom0}});
  if (c.Bool())
    for (size_t k = groups.size() - 1; k > 0; --k) std::swap(groups[k], groups[c.Choice(k)]);
  std::vector<std::pair<A, I>> attrs;
  for (auto& g : groups) attrs.insert(attrs.end(), g.begin(), g.end());
  auto format = MeshFormat::Create(attrs, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
  PROP(format.ok(), "setup", format.status().ToString());
  auto d = Data::CreateForStroke(*format);
  PROP(d.ok(), "supported-format-accepted", d.status().ToString());

  Uniforms u = GenUniforms(c);
  double scale = std::exp2(c.Uniform(-4, 4)) / std::hypot(u.lin[0], u.lin[1]) * 4;
  int nv = 3 + c.Len(0, 5);
  std::vector<Vert> vs(nv);
  for (Vert& v : vs) v = GenVert(c, scale);
  // Columns, in the order of the format.
  std::vector<std::vector<float>> cols;
  for (auto [t, id] : attrs) {
    int comps = MeshFormat::ComponentCount(t);
    for (int k = 0; k < comps; ++k) {
      std::vector<float> col;
      for (const Vert& v : vs) {
        double x = 0;
        switch (id) {
          case I::kPosition: x = v.pos[k]; break;
          case I::kOpacityShift: x = v.opacity; break;
          case I::kColorShiftHsl: x = v.hsl[k]; break;
          case I::kSideDerivative: x = v.side[k]; break;
          case I::kSideLabel: x = v.side_label; break;
          case I::kForwardDerivative: x = v.fwd[k]; break;
          case I::kForwardLabel: x = v.fwd_label; break;
          case I::kSurfaceUv: x = v.uv[k]; break;
          default: x = v.pos[0] + k; break;
        }
        col.push_back((float)x);
      }
      cols.push_back(std::move(col));
    }
  }
  std::vector<absl::Span<const float>> spans(cols.begin(), cols.end());
  std::vector<uint32_t> idx = {0, 1, 2};
  auto packing = StrokeVertex::MakeCustomPackingArray(*format);
  auto mesh = Mesh::Create(*format, spans, idx, packing.Values());
  ASSUME(mesh.ok());
  PROP(d->vertex_stride == (int)mesh->VertexStride(), "vertex-stride", d->vertex_stride);
  // The vertices as the CPU unpacks them.
  int first = (int)c.Choice(nv - 3);
  std::array<Vert, 3> tri;
  std::array<const std::byte*, 3> bytes;
  for (int k = 0; k < 3; ++k) {
    Vert v{};
    for (size_t a = 0; a < attrs.size(); ++a) {
      auto x = mesh->FloatVertexAttribute(first + k, a);
      double* to = nullptr;
      switch (attrs[a].second) {
        case I::kPosition: to = v.pos; break;
        case I::kOpacityShift: to = &v.opacity; break;
        case I::kColorShiftHsl: to = v.hsl; break;
        case I::kSideDerivative: to = v.side; break;
        case I::kSideLabel: to = &v.side_label; break;
        case I::kForwardDerivative: to = v.fwd; break;
        case I::kForwardLabel: to = &v.fwd_label; break;
        case I::kSurfaceUv: to = v.uv; break;
        default: break;
      }
      for (int e = 0; to && e < x.Size(); ++e) to[e] = x[e];
    }
    // Labels are whole numbers that survive packing exactly.
    PROP(v.side_label == vs[first + k].side_label && v.fwd_label == vs[first + k].fwd_label, "labels-exact", v.side_label, " ", v.fwd_label);
    PROP(Close(v.opacity, vs[first + k].opacity, 1.01 / 254) && Close(v.uv[0], uv ? vs[first + k].uv[0] : 0, 0.51 / 4095) && Close(v.uv[1], uv ? vs[first + k].uv[1] : 0, 1e-6), "shifts-close", v.opacity, " ", v.uv[0], " ", v.uv[1]);
    for (int e = 0; e < 3; ++e) PROP(Close(v.hsl[e], hsl ? vs[first + k].hsl[e] : 0, 1.01 / 1022), "shifts-close", v.hsl[e]);
    if (vs[first + k].opacity == 0) PROP(std::abs(v.opacity) <= 1e-6, "no-shift-stays", v.opacity);
    // Quantised derivatives may vanish; the documented model needs a direction.
    ASSUME(std::hypot(v.side[0], v.side[1]) > 0.02 * scale && std::hypot(v.fwd[0], v.fwd[1]) > 0.02 * scale);
    if (!uv) v.uv[0] = v.uv[1] = 0;
    tri[k] = v;
    bytes[k] = mesh->RawVertexData().data() + (first + k) * mesh->VertexStride();
    c.NonTrivial((packed_pos || packed_side || packed_fwd) && (v.side_label || v.fwd_label));
  }
  u.shifts_colour = hsl;
  if (!uv) u.mapping = 0;
  c.Note("format ", absl::StrCat(*format));
  auto uvals = UniformVals(*d, u, &*mesh);
  if (!uv && c.Bool()) uvals[std::string(Data::GetUniformName(Data::UniformId::kTextureMapping))] = Val::F(1);  // without UVs the mapping is tiling anyway
  RunTriangle(c, *d, bytes, tri, u, uvals);
}
