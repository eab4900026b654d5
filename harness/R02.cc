// Which mesh formats renderers accept, and whether the offered description fits its own shader sources.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/sksl.h"
#include "ink/geometry/mesh_format.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/internal/stroke_vertex.h"

using ink::MeshFormat;
using ink::skia_common_internal::MeshSpecificationData;
using ink::strokes_internal::StrokeVertex;
using pbt::Ctx;
using Data = MeshSpecificationData;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;
using Attrs = std::vector<std::pair<A, I>>;

namespace {
constexpr A kTypes[] = {A::kFloat1Unpacked, A::kFloat1PackedIn1UnsignedByte, A::kFloat2Unpacked, A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12,
                        A::kFloat2PackedIn4UnsignedBytes_X12_Y20, A::kFloat3Unpacked, A::kFloat3PackedIn1Float, A::kFloat3PackedIn2Floats, A::kFloat3PackedIn4UnsignedBytes_XYZ10,
                        A::kFloat4Unpacked, A::kFloat4PackedIn1Float, A::kFloat4PackedIn2Floats, A::kFloat4PackedIn3Floats};
// Bytes of each type when stored packed, from the bit layouts in the documentation.
int Bytes(A t) {
  switch (t) {
    case A::kFloat1PackedIn1UnsignedByte: return 1;
    case A::kFloat2PackedIn3UnsignedBytes_XY12: return 3;
    case A::kFloat1Unpacked: case A::kFloat2PackedIn1Float: case A::kFloat2PackedIn4UnsignedBytes_X12_Y20: case A::kFloat3PackedIn1Float:
    case A::kFloat3PackedIn4UnsignedBytes_XYZ10: case A::kFloat4PackedIn1Float: return 4;
    case A::kFloat2Unpacked: case A::kFloat3PackedIn2Floats: case A::kFloat4PackedIn2Floats: return 8;
    case A::kFloat3Unpacked: case A::kFloat4PackedIn3Floats: return 12;
    case A::kFloat4Unpacked: return 16;
  }
  return 0;
}
int Find(const Attrs& a, I id) {
  for (size_t k = 0; k < a.size(); ++k) if (a[k].second == id) return (int)k;
  return -1;
}
// Width of the shader attribute for a supported pair or single, 0 when unsupported.
bool Pair(const Attrs& a, I first, I second, A wide_t, A wide_l, A pack_t, A pack_l) {
  int p = Find(a, first), q = Find(a, second);
  if (p < 0 || q != p + 1) return false;
  return (a[p].first == wide_t && a[q].first == wide_l) || (a[p].first == pack_t && a[q].first == pack_l);
}
bool Supported(const Attrs& a) {
  if (!Pair(a, I::kPosition, I::kOpacityShift, A::kFloat2PackedIn1Float, A::kFloat1Unpacked, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat1PackedIn1UnsignedByte)) return false;
  for (auto [d, l] : {std::pair{I::kSideDerivative, I::kSideLabel}, std::pair{I::kForwardDerivative, I::kForwardLabel}})
    if (!Pair(a, d, l, A::kFloat2Unpacked, A::kFloat1Unpacked, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat1PackedIn1UnsignedByte)) return false;
  int h = Find(a, I::kColorShiftHsl), u = Find(a, I::kSurfaceUv);
  if (h >= 0 && a[h].first != A::kFloat3Unpacked && a[h].first != A::kFloat3PackedIn4UnsignedBytes_XYZ10) return false;
  if (u >= 0 && a[u].first != A::kFloat2Unpacked && a[u].first != A::kFloat2PackedIn4UnsignedBytes_X12_Y20) return false;
  return true;
}
int Width(Data::AttributeType t) { return t == Data::AttributeType::kFloat2 ? 2 : t == Data::AttributeType::kFloat3 ? 3 : t == Data::AttributeType::kUByte4 ? 4 : 0; }
int Size(Data::AttributeType t) { return t == Data::AttributeType::kUByte4 ? 4 : 4 * Width(t); }
int Width(Data::VaryingType t) { return t == Data::VaryingType::kFloat2 ? 2 : t == Data::VaryingType::kFloat4 ? 4 : 0; }

// Everything the description says has to agree with its own shader sources.
void CheckConsistent(const Data& d, const Attrs* format) {
  std::map<std::string, int> at, va;
  for (const auto& a : d.attributes.Values()) {
    PROP(Width(a.type) > 0 && !a.name.empty(), "attribute-valid");
    PROP(at.emplace(std::string(a.name), Width(a.type)).second, "attribute-names-unique", a.name);
    PROP(a.offset >= 0 && a.offset + Size(a.type) <= d.vertex_stride, "attribute-inside-vertex", a.name, " at ", a.offset, " of ", d.vertex_stride);
  }
  for (const auto& a : d.varyings.Values()) {
    PROP(Width(a.type) > 0 && a.name != "position", "varying-valid", a.name);
    PROP(va.emplace(std::string(a.name), Width(a.type)).second, "varying-names-unique", a.name);
  }
  std::set<std::string> declared, listed;
  std::set<Data::UniformId> ids;
  try {
    sksl::Program v{std::string(d.vertex_shader_source)}, f{std::string(d.fragment_shader_source)};
    for (const auto& u : v.uniforms) declared.insert(u.type + " " + u.name);
    PROP(f.uniforms.empty(), "uniforms-declared", "fragment shader declares uniforms");
    std::map<std::string, sksl::Val> uniforms;
    for (const auto& u : d.uniforms.Values()) {
      PROP(ids.insert(u.id).second, "uniform-ids-unique", (int)u.id);
      std::string name(Data::GetUniformName(u.id));
      PROP(!name.empty(), "uniform-named", (int)u.id);
      listed.insert((u.type == Data::UniformType::kFloat4 ? "float4 " : u.type == Data::UniformType::kInt ? "int " : "? ") + name);
      uniforms[name] = u.type == Data::UniformType::kInt ? sksl::Val::F(0) : sksl::Val::Vec({1, 0.5f, 0.25f, 1});
      int want = -1;
      if (format) {
        if (u.id == Data::UniformId::kPositionUnpackingTransform) want = Find(*format, I::kPosition);
        if (u.id == Data::UniformId::kSideDerivativeUnpackingTransform) want = Find(*format, I::kSideDerivative);
        if (u.id == Data::UniformId::kForwardDerivativeUnpackingTransform) want = Find(*format, I::kForwardDerivative);
      }
      PROP(u.unpacking_attribute_index.has_value() == (want >= 0), "unpacking-index", name);
      if (want >= 0) PROP(*u.unpacking_attribute_index == want, "unpacking-index", name, " is ", *u.unpacking_attribute_index, " expected ", want);
    }
    PROP(listed == declared, "uniforms-declared", listed, " against declarations ", declared);
    // Both programs run for both texture mappings with exactly these inputs and outputs.
    va["position"] = 2;
    v.structs["Attributes"] = at;
    v.structs["Varyings"] = va;
    f.structs["Varyings"] = va;
    for (int mapping : {0, 1}) {
      uniforms[std::string(Data::GetUniformName(Data::UniformId::kTextureMapping))] = sksl::Val::F(mapping);
      sksl::Val in;
      in.kind = sksl::Val::kStruct;
      in.type = "Attributes";
      for (auto& [n, w] : at) {
        sksl::Val x = sksl::Val::Undefined(w);
        for (int k = 0; k < w; ++k) x.v[k] = 0.25f * (k + 1);
        in.fields[n] = x;
      }
      std::vector<sksl::Val> args = {in};
      sksl::Val out = v.Call("main", args, uniforms);
      for (auto& [n, w] : va) {
        PROP(out.fields.count(n) && out.fields[n].n == w, "varyings-written", n);
        for (int k = 0; k < w; ++k) PROP(!std::isnan(out.fields[n].v[k]), "varyings-written", n, " component ", k);
      }
      std::vector<sksl::Val> fargs = {out, sksl::Val::Undefined(4)};
      sksl::Val tex = f.Call("main", fargs, {});
      PROP(tex.n == 2 && !std::isnan(tex.v[0]) && !std::isnan(tex.v[1]), "fragment-outputs");
      for (int k = 0; k < 4; ++k) PROP(!std::isnan(fargs[1].v[k]), "fragment-outputs");
    }
  } catch (const sksl::Error& e) {
    pbt::Fail("shader-valid", e.what());
  }
}

Attrs GenAttrs(Ctx& c) {
  std::vector<Attrs> groups;
  auto pair = [&](I a, I b, A wt, A wl, A pt, A pl) { bool p = c.Bool(); groups.push_back({{p ? pt : wt, a}, {p ? pl : wl, b}}); };
  pair(I::kPosition, I::kOpacityShift, A::kFloat2PackedIn1Float, A::kFloat1Unpacked, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat1PackedIn1UnsignedByte);
  pair(I::kSideDerivative, I::kSideLabel, A::kFloat2Unpacked, A::kFloat1Unpacked, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat1PackedIn1UnsignedByte);
  pair(I::kForwardDerivative, I::kForwardLabel, A::kFloat2Unpacked, A::kFloat1Unpacked, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat1PackedIn1UnsignedByte);
  if (c.Bool()) groups.push_back({{c.Bool() ? A::kFloat3Unpacked : A::kFloat3PackedIn4UnsignedBytes_XYZ10, I::kColorShiftHsl}});
  if (c.Bool()) groups.push_back({{c.Bool() ? A::kFloat2Unpacked : A::kFloat2PackedIn4UnsignedBytes_X12_Y20, I::kSurfaceUv}});
  for (int k = c.Len(0, 3); k > 0; --k)
    groups.push_back({{kTypes[c.Choice(13)], (I)(k == 3 ? (int)I::kTexture : (int)I::kCustom0 + k)}});
  if (c.Bool())
    for (size_t k = groups.size() - 1; k > 0; --k) std::swap(groups[k], groups[c.Choice(k)]);
  Attrs r;
  for (auto& g : groups) r.insert(r.end(), g.begin(), g.end());
  // Break it a little.
  for (int k = c.Bool() ? c.Len(1, 3) : 0; k > 0; --k) {
    size_t i = c.Choice(r.size() - 1), j = c.Choice(r.size() - 1);
    switch (c.Choice(4)) {
      case 0: std::swap(r[i], r[j]); break;
      case 1: r[i].first = kTypes[c.Choice(13)]; break;
      case 2: if (r.size() > 1) r.erase(r.begin() + i); break;
      case 3: std::swap(r[i].first, r[j].first); break;
      case 4: { auto x = r[i]; r.erase(r.begin() + i); r.insert(r.begin() + std::min(j, r.size()), x); break; }
    }
  }
  return r;
}
}  // namespace

PBT(FinishedStrokeFormats, 3, "the format is supported, or unsupported by one step") {
  Attrs a = GenAttrs(c);
  auto format = MeshFormat::Create(a, c.Bool() ? MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
  ASSUME(format.ok());
  c.Note("format ", absl::StrCat(*format));
  auto d = Data::CreateForStroke(*format);
  bool want = Supported(a);
  c.NonTrivial();
  c.Label("supported", want);
  PROP(d.ok() == want, "accepted-exactly-when-supported", d.status().ToString());
  if (!want) {
    PROP(d.status().code() == absl::StatusCode::kInvalidArgument, "error-kind", d.status().ToString());
    return;
  }
  std::vector<int> offset(a.size() + 1, 0);
  for (size_t k = 0; k < a.size(); ++k) offset[k + 1] = offset[k] + Bytes(a[k].first);
  PROP(d->vertex_stride == offset.back(), "vertex-stride", d->vertex_stride, " expected ", offset.back());
  // One shader attribute per supported group, at the group's place.
  std::map<int, int> expect;  // offset -> width
  expect[offset[Find(a, I::kPosition)]] = a[Find(a, I::kPosition)].first == A::kFloat2PackedIn1Float ? 2 : 4;
  expect[offset[Find(a, I::kSideDerivative)]] = a[Find(a, I::kSideDerivative)].first == A::kFloat2Unpacked ? 3 : 4;
  expect[offset[Find(a, I::kForwardDerivative)]] = a[Find(a, I::kForwardDerivative)].first == A::kFloat2Unpacked ? 3 : 4;
  if (int h = Find(a, I::kColorShiftHsl); h >= 0) expect[offset[h]] = a[h].first == A::kFloat3Unpacked ? 3 : 4;
  if (int u = Find(a, I::kSurfaceUv); u >= 0) expect[offset[u]] = a[u].first == A::kFloat2Unpacked ? 2 : 4;
  std::map<int, int> got;
  for (const auto& x : d->attributes.Values()) got[x.offset] = Width(x.type);
  PROP(got == expect, "attribute-layout");
  PROP(d->attributes.Size() == (int)expect.size(), "attribute-layout");
  CheckConsistent(*d, &a);
}

PBT(InProgressFormats, 1, "the format is the one of strokes being drawn, or differs from it in one place") {
  static const MeshFormat full = StrokeVertex::FullMeshFormat();
  Attrs a;
  for (const auto& x : full.Attributes()) a.push_back({x.type, x.id});
  bool same = c.Bool();
  auto index = MeshFormat::IndexFormat::k32BitUnpacked16BitPacked;
  Attrs orig = a;
  if (!same) {
    size_t i = c.Choice(a.size() - 1), j = c.Choice(a.size() - 1);
    switch (c.Choice(4)) {
      case 0: std::swap(a[i], a[j]); break;
      case 1: a[i].first = kTypes[c.Choice(13)]; break;
      case 2: a.erase(a.begin() + i); break;
      case 3: index = MeshFormat::IndexFormat::k16BitUnpacked16BitPacked; break;
      default: a.push_back({kTypes[c.Choice(13)], I::kCustom3}); break;
    }
  }
  same = a == orig && index == MeshFormat::IndexFormat::k32BitUnpacked16BitPacked;
  auto format = MeshFormat::Create(a, index);
  ASSUME(format.ok());
  c.NonTrivial();
  auto d = Data::CreateForInProgressStroke(*format);
  PROP(d.ok() == same, "accepted-exactly-when-same", absl::StrCat(*format));
  if (!same) {
    PROP(d.status().code() == absl::StatusCode::kInvalidArgument, "error-kind");
    return;
  }
  Data e = Data::CreateForInProgressStroke();
  PROP(d->vertex_shader_source == e.vertex_shader_source && d->fragment_shader_source == e.fragment_shader_source && d->vertex_stride == e.vertex_stride &&
           d->attributes.Size() == e.attributes.Size() && d->uniforms.Size() == e.uniforms.Size(), "same-description");
  // Unpacked layout: floats in format order.
  std::map<int, int> expect, got;
  int off = 0;
  for (auto [t, id] : a) {
    int w = MeshFormat::ComponentCount(t);
    if (id == I::kOpacityShift || id == I::kSideLabel || id == I::kForwardLabel) expect.rbegin()->second += w;
    else expect[off] = w;
    off += 4 * w;
  }
  for (const auto& x : d->attributes.Values()) got[x.offset] = Width(x.type);
  PROP(got == expect && d->vertex_stride == off, "attribute-layout");
  CheckConsistent(*d, nullptr);
}

PBT(UniformNames, 1, "an identifier outside the named ones") {
  int id = c.Bool() ? (int)c.Choice(5) : c.Signed(-3, 300);
  auto name = Data::GetUniformName((Data::UniformId)id);
  c.NonTrivial(id < 0 || id > 5);
  PROP(name.empty() == (id < 0 || id > 5), "names", id, " ", name);
  if (!name.empty())
    for (int k = 0; k <= 5; ++k) PROP(k == id || Data::GetUniformName((Data::UniformId)k) != name, "names-unique", k, " ", id);
}
