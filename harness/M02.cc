// Read-only meshes: which inputs make one, and how faithfully packed attributes come back.
#include <algorithm>
#include <bit>
#include <cfloat>
#include <cmath>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mesh_packing_types.h"

using ink::Mesh;
using ink::MeshAttributeCodingParams;
using ink::MeshFormat;
using pbt::Ctx;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;
using X = MeshFormat::IndexFormat;
using Attrs = std::vector<std::pair<A, I>>;

namespace {
struct Row { A type; std::vector<int> bits; int comps, bytes; bool in_float; };
const std::vector<Row> kRows = {
    {A::kFloat1Unpacked, {}, 1, 4, false},
    {A::kFloat1PackedIn1UnsignedByte, {8}, 1, 1, false},
    {A::kFloat2Unpacked, {}, 2, 8, false},
    {A::kFloat2PackedIn1Float, {12, 12}, 2, 4, true},
    {A::kFloat2PackedIn3UnsignedBytes_XY12, {12, 12}, 2, 3, false},
    {A::kFloat2PackedIn4UnsignedBytes_X12_Y20, {12, 20}, 2, 4, false},
    {A::kFloat3Unpacked, {}, 3, 12, false},
    {A::kFloat3PackedIn1Float, {8, 8, 8}, 3, 4, true},
    {A::kFloat3PackedIn2Floats, {16, 16, 16}, 3, 8, true},
    {A::kFloat3PackedIn4UnsignedBytes_XYZ10, {10, 10, 10}, 3, 4, false},
    {A::kFloat4Unpacked, {}, 4, 16, false},
    {A::kFloat4PackedIn1Float, {6, 6, 6, 6}, 4, 4, true},
    {A::kFloat4PackedIn2Floats, {12, 12, 12, 12}, 4, 8, true},
    {A::kFloat4PackedIn3Floats, {18, 18, 18, 18}, 4, 12, true},
};
const Row& Find(A t) {
  for (const Row& r : kRows) if (r.type == t) return r;
  pbt::Fail("setup", "type");
}
// Bytes of a packed attribute: the component bits one after another, most significant first, cut into bytes
// or into 24-bit whole numbers stored as floats.
std::vector<std::byte> RefPack(const Row& r, const std::vector<uint32_t>& v) {
  std::vector<bool> bits;
  for (int k = 0; k < r.comps; ++k)
    for (int b = r.bits[k] - 1; b >= 0; --b) bits.push_back(v[k] >> b & 1);
  bits.resize(r.in_float ? r.bytes / 4 * 24 : r.bytes * 8);
  std::vector<std::byte> out;
  int unit = r.in_float ? 24 : 8;
  for (size_t i = 0; i < bits.size(); i += unit) {
    uint32_t w = 0;
    for (int k = 0; k < unit; ++k) w = w << 1 | bits[i + k];
    if (r.in_float) {
      float f = (float)w;
      std::byte b[4];
      std::memcpy(b, &f, 4);
      out.insert(out.end(), b, b + 4);
    } else out.push_back((std::byte)w);
  }
  return out;
}
A PosType(Ctx& c) { return c.PickOf<A>({A::kFloat2Unpacked, A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat2PackedIn4UnsignedBytes_X12_Y20}); }
struct Setup {
  Attrs attrs;
  MeshFormat format;
  std::vector<int> first;  // first column of each attribute
  int cols = 0;
};
Setup GenFormat(Ctx& c, int max_attrs) {
  Setup s;
  int n = c.Len(1, max_attrs), pos = (int)c.Choice(n - 1);
  for (int k = 0; k < n; ++k) s.attrs.push_back({k == pos ? PosType(c) : kRows[c.Choice(13)].type, k == pos ? I::kPosition : (I)(1 + k)});
  auto f = MeshFormat::Create(s.attrs, c.Bool() ? X::k32BitUnpacked16BitPacked : X::k16BitUnpacked16BitPacked);
  PROP(f.ok(), "setup", f.status().ToString());
  s.format = *f;
  for (auto [t, id] : s.attrs) { s.first.push_back(s.cols); s.cols += Find(t).comps; }
  return s;
}
// A column of values from one family, so that ranges of every size occur.
std::vector<float> GenColumn(Ctx& c, int n) {
  std::vector<float> v(n);
  int family = (int)c.Choice(7);
  float base = c.Moderate(1000), step = std::ldexp(1.f, c.Signed(-20, 10));
  for (float& x : v) switch (family) {
    case 0: x = c.Moderate(); break;
    case 1: x = base; break;
    case 2: x = base + step * (float)c.Choice(255); break;
    case 3: x = c.AnyFinite(); break;
    case 4: x = c.UniformF(-1, 1) * std::ldexp(1.f, -120 - (int)c.Choice(29)); break;          // down to denormal
    case 5: x = c.PickOf<float>({FLT_MAX, 0.f, -0.f, FLT_MAX / 2, FLT_MAX / 4095, 1.f}); break;  // up to the largest
    case 6: x = std::ldexp((float)c.Choice(15), -149); break;
    default: x = c.Near(base); break;
  }
  return v;
}
std::string Cols(const std::vector<std::vector<float>>& cols) {
  std::string s;
  for (auto& v : cols) s += pbt::Show(v) + " ";
  return s;
}

// All observable facts of a mesh that was accepted.
void CheckMesh(Ctx& c, const Mesh& m, const Setup& s, const std::vector<std::vector<float>>& cols, const std::vector<uint32_t>& idx,
               const std::vector<std::optional<MeshAttributeCodingParams>>& params) {
  size_t n = cols[0].size();
  PROP(m.VertexCount() == n && m.TriangleCount() == idx.size() / 3, "counts", m.VertexCount(), " ", m.TriangleCount());
  PROP(m.Format() == s.format, "format");
  PROP(m.RawVertexData().size() == n * s.format.PackedVertexStride() && m.RawIndexData().size() == 2 * idx.size() && m.VertexStride() == s.format.PackedVertexStride() && m.IndexStride() == 2, "raw-sizes");
  for (size_t t = 0; t < idx.size() / 3; ++t) {
    auto tri = m.TriangleIndices(t);
    for (int k = 0; k < 3; ++k) {
      uint16_t raw;
      std::memcpy(&raw, m.RawIndexData().data() + 2 * (3 * t + k), 2);
      PROP(tri[k] == idx[3 * t + k] && raw == idx[3 * t + k], "triangle-indices", t);
    }
    ink::Triangle g = m.GetTriangle(t);
    PROP(g.p0 == m.VertexPosition(tri[0]) && g.p1 == m.VertexPosition(tri[1]) && g.p2 == m.VertexPosition(tri[2]), "triangle-corners", t);
  }
  for (size_t a = 0; a < s.attrs.size(); ++a) {
    const Row& r = Find(s.attrs[a].first);
    auto b = m.AttributeBounds(a);
    PROP(b.has_value() == (n > 0), "bounds-present");
    const auto& p = m.VertexAttributeUnpackingParams(a);
    PROP(p.components.Size() == r.comps, "params-size");
    for (int k = 0; k < r.comps; ++k) {
      const auto& col = cols[s.first[a] + k];
      if (n == 0) continue;
      float lo = *std::min_element(col.begin(), col.end()), hi = *std::max_element(col.begin(), col.end());
      PROP(b->minimum[k] == lo && b->maximum[k] == hi, "bounds", b->minimum[k], " ", b->maximum[k], " expected ", lo, " ", hi);
      if (s.attrs[a].second == I::kPosition) {
        auto e = m.Bounds().AsRect();
        PROP(e.has_value() && (k == 0 ? e->XMin() == lo && e->XMax() == hi : e->YMin() == lo && e->YMax() == hi), "position-bounds");
      }
      bool custom = !params.empty() && params[a].has_value();
      if (custom) PROP(pbt::SameBits(p.components[k].offset, params[a]->components[k].offset) && pbt::SameBits(p.components[k].scale, params[a]->components[k].scale), "custom-params");
    }
    for (size_t v = 0; v < n; ++v) {
      auto got = m.FloatVertexAttribute(v, a);
      PROP(got.Size() == r.comps, "attribute-size");
      const std::byte* raw = m.RawVertexData().data() + v * m.VertexStride() + s.format.Attributes()[a].packed_offset;
      if (r.bits.empty()) {
        for (int k = 0; k < r.comps; ++k) {
          float f;
          std::memcpy(&f, raw + 4 * k, 4);
          PROP(pbt::SameBits(got[k], cols[s.first[a] + k][v]) && pbt::SameBits(f, got[k]), "unpacked-lossless", got[k]);
        }
        continue;
      }
      auto ints = m.PackedIntegersForFloatVertexAttribute(v, a);
      PROP(ints.Size() == r.comps, "packed-integers");
      std::vector<uint32_t> iv;
      for (int k = 0; k < r.comps; ++k) {
        PROP(ints[k] < 1ull << r.bits[k], "packed-integers-fit", ints[k], " in ", r.bits[k], " bits");
        iv.push_back(ints[k]);
      }
      auto want = RefPack(r, iv);
      PROP(std::equal(want.begin(), want.end(), raw), "bit-layout", absl::StrCat(r.type), " ", iv);
      for (int k = 0; k < r.comps; ++k) {
        const auto& col = cols[s.first[a] + k];
        double x = col[v], lo = *std::min_element(col.begin(), col.end()), hi = *std::max_element(col.begin(), col.end());
        bool custom = !params.empty() && params[a].has_value();
        double maxv = (double)((1u << r.bits[k]) - 1);
        double step = custom ? p.components[k].scale : (hi - lo) / maxv;
        double off = custom ? std::abs((double)p.components[k].offset) : 0;
        double tol = 0.5 * step * (1 + maxv * 3e-7) + 3e-7 * (std::abs(x) + off + std::abs(lo) + (hi - lo)) + 1.2e-38;
        PROP(std::isfinite(got[k]), "finite", "component ", k, " of ", x, " in [", lo, ", ", hi, "] came back as ", got[k], ", scale ", p.components[k].scale);
        PROP(std::abs(got[k] - x) <= tol, "half-a-step", "component ", k, " of ", x, " in [", lo, ", ", hi, "] came back as ", got[k], ", scale ", p.components[k].scale, " offset ", p.components[k].offset);
        // The integers, not only the floats, describe the value.
        double recon = (double)p.components[k].offset + (double)p.components[k].scale * iv[k];
        PROP(std::abs(recon - x) <= tol * 1.01, "integers-describe-value", iv[k], " for ", x);
        // Equal inputs give equal stored values; the lowest value is exact with default packing.
        if (!custom && x == lo) PROP(got[k] == (float)lo, "minimum-exact", got[k], " for ", lo);
      }
    }
  }
  Mesh copy = m;
  PROP(copy.RawVertexData().data() == m.RawVertexData().data(), "copies-share");
}
}  // namespace

PBT(RoundTrip, 5, "some attribute is packed and has at least two distinct values") {
  Setup s = GenFormat(c, 4);
  int n = c.Len(1, 12);
  std::vector<std::vector<float>> cols;
  for (int k = 0; k < s.cols; ++k) cols.push_back(GenColumn(c, n));
  std::vector<uint32_t> idx;
  for (int k = c.Len(0, 6); k > 0; --k)
    for (int j = 0; j < 3; ++j) idx.push_back((uint32_t)c.Choice(n - 1));
  c.Note("format ", absl::StrCat(s.format), " columns ", Cols(cols));
  bool too_wide = false;
  for (size_t a = 0; a < s.attrs.size(); ++a)
    for (int k = 0; k < Find(s.attrs[a].first).comps; ++k) {
      auto& col = cols[s.first[a] + k];
      float lo = *std::min_element(col.begin(), col.end()), hi = *std::max_element(col.begin(), col.end());
      if (!Find(s.attrs[a].first).bits.empty()) {
        c.NonTrivial(lo < hi);
        if (!std::isfinite(hi - lo)) too_wide = true;
      } else ASSUME(std::isfinite(hi - lo));  // the documentation and the code differ for unpacked types
    }
  std::vector<absl::Span<const float>> spans(cols.begin(), cols.end());
  auto m = Mesh::Create(s.format, spans, idx);
  PROP(m.ok() == !too_wide, "accepted-exactly-when-valid", m.status().ToString());
  c.Label("accepted", m.ok());
  if (m.ok()) CheckMesh(c, *m, s, cols, idx, {});
}

PBT(CustomPacking, 3, "custom parameters for a packed attribute") {
  Setup s = GenFormat(c, 3);
  int n = c.Len(1, 8);
  std::vector<std::vector<float>> cols(s.cols);
  std::vector<std::optional<MeshAttributeCodingParams>> params(s.attrs.size());
  bool must_fail = false, may_fail = false;
  for (size_t a = 0; a < s.attrs.size(); ++a) {
    const Row& r = Find(s.attrs[a].first);
    bool custom = c.Chance(2, 3);
    if (r.bits.empty() && custom && !c.Chance(1, 20)) custom = false;
    if (custom) params[a].emplace(), params[a]->components.Resize(r.comps);
    for (int k = 0; k < r.comps; ++k) {
      auto& col = cols[s.first[a] + k];
      if (!custom) { for (int v = 0; v < n; ++v) col.push_back(c.Moderate()); continue; }
      float scale = std::ldexp(c.UniformF(1, 2), c.Signed(-12, 6)), off = c.Moderate(100);
      if (c.Chance(1, 40)) scale = c.PickOf<float>({0.f, -1.f, INFINITY, NAN});
      if (c.Chance(1, 40)) off = c.PickOf<float>({INFINITY, -INFINITY, NAN});
      params[a]->components[k] = {.offset = off, .scale = scale};
      bool good = std::isfinite(scale) && scale > 0 && std::isfinite(off);
      if (!good) { must_fail = true; scale = 1; off = 0; }
      uint32_t maxv = r.bits.empty() ? 255 : (1u << r.bits[k]) - 1;
      for (int v = 0; v < n; ++v) {
        double q = c.Chance(1, 30) ? c.PickOf<double>({-1.5, maxv + 1.5, -0.3, maxv + 0.3, -100, 2.0 * maxv}) : c.Chance(1, 3) ? c.PickOf<double>({0, (double)maxv, maxv / 2.0}) : (double)c.Choice(maxv) + c.Unit() - 0.5;
        float x = (float)(off + q * scale);
        col.push_back(x);
        double real = ((double)x - off) / scale;
        if (real < -0.6 || real > maxv + 0.6) must_fail = true;
        else if (real < 0 || real > maxv) may_fail = true;
      }
    }
    if (r.bits.empty() && custom) must_fail = true;
    c.NonTrivial(custom);
  }
  if (c.Chance(1, 30)) { params.pop_back(); must_fail = !params.empty(); if (params.empty()) return; }
  else if (c.Chance(1, 30)) { params.push_back(std::nullopt); must_fail = true; }
  if (c.Chance(1, 30) && params[0].has_value() && Find(s.attrs[0].first).comps > 1) { params[0]->components.Resize(Find(s.attrs[0].first).comps - 1); must_fail = true; }
  c.Note("format ", absl::StrCat(s.format), " columns ", Cols(cols));
  std::vector<absl::Span<const float>> spans(cols.begin(), cols.end());
  auto m = Mesh::Create(s.format, spans, {}, params);
  c.Label("accepted", m.ok());
  if (must_fail) {
    PROP(!m.ok() && m.status().code() == absl::StatusCode::kInvalidArgument, "bad-params-refused", m.status().ToString());
    return;
  }
  if (!may_fail) PROP(m.ok(), "good-params-accepted", m.status().ToString());
  if (m.ok()) CheckMesh(c, *m, s, cols, {}, params);
}

PBT(Validation, 3, "the input breaks at most two rules") {
  Setup s = GenFormat(c, 3);
  size_t n = c.Len(0, 6);
  if (c.Chance(1, 3000)) n = c.PickOf<size_t>({65535, 65536, 65537});
  bool big = n > 100;
  std::vector<std::vector<float>> cols(s.cols, std::vector<float>(n));
  for (auto& v : cols) for (float& x : v) x = big ? 1.5f : c.Moderate(50);
  bool bad = n > 65536;
  std::vector<uint32_t> idx;
  if (n) for (int k = c.Len(0, 4) * 3; k > 0; --k) idx.push_back((uint32_t)c.Choice(n - 1));
  for (int k = c.Len(0, 2); k > 0; --k) switch (c.Choice(5)) {
    case 0: if (cols.size() > 0) { cols.pop_back(); bad = true; } break;
    case 1: cols.push_back(std::vector<float>(n)); bad = true; break;
    case 2: if (cols.size() > 1) { auto& v = cols[c.Choice(cols.size() - 1)]; if (c.Bool() && !v.empty()) v.pop_back(); else v.push_back(0); bad = true; } break;
    case 3: if (!cols.empty()) { auto& v = cols[c.Choice(cols.size() - 1)]; if (!v.empty()) { v[c.Choice(v.size() - 1)] = c.PickOf<float>({INFINITY, -INFINITY, NAN}); bad = true; } } break;
    case 4: if (n) { idx.push_back((uint32_t)c.Choice(n - 1)); if (idx.size() % 3) bad = true; } break;
    case 5: { for (int j = 0; j < 3; ++j) idx.push_back(n && j != 1 ? (uint32_t)c.Choice(n - 1) : (uint32_t)n + (c.Bool() ? 0 : (uint32_t)c.Choice(70000))); bad = true; break; }
  }
  if (!bad && (cols.size() != (size_t)s.cols || idx.size() % 3)) bad = true;
  // Two shortened columns can agree again.
  if (bad && cols.size() == (size_t)s.cols) {
    bool still = idx.size() % 3 != 0 || cols[0].size() > 65536;
    for (auto& v : cols) { still |= v.size() != cols[0].size(); for (float x : v) still |= !std::isfinite(x); }
    for (uint32_t i : idx) still |= i >= cols[0].size();
    bad = still;
  }
  if (!bad) n = cols[0].size();
  c.NonTrivial();
  c.Label("large", big);
  c.Label("valid", !bad);
  c.Note("format ", absl::StrCat(s.format), " vertices ", n, " indices ", idx);
  std::vector<absl::Span<const float>> spans(cols.begin(), cols.end());
  auto m = Mesh::Create(s.format, spans, idx);
  PROP(m.ok() == !bad, "accepted-exactly-when-valid", m.status().ToString());
  if (bad) PROP(m.status().code() == absl::StatusCode::kInvalidArgument, "error-kind", m.status().ToString());
  else if (!big) CheckMesh(c, *m, s, cols, idx, {});
  else PROP(m->VertexCount() == n && m->VertexPosition(n - 1) == (ink::Point{1.5f, 1.5f}), "large-mesh");
  Mesh e;
  PROP(e.VertexCount() == 0 && e.TriangleCount() == 0 && e.Bounds().IsEmpty() && !e.AttributeBounds(0).has_value(), "empty-mesh");
}

PBT(Partitions, 2, "more than one part") {
  int nv = c.Len(3, 20), nt = c.Len(0, 25);
  uint64_t cap = 3 + c.Choice(9);
  bool narrow = c.Bool();
  int stride = narrow ? 2 : 4;
  std::vector<std::byte> data(nt * 3 * stride);
  std::vector<std::array<uint32_t, 3>> tris(nt);
  uint32_t base = narrow ? 65535 - nv : c.PickOf<uint32_t>({0, 65530, 70000, 4294960000u});
  for (int t = 0; t < nt; ++t) {
    for (int k = 0; k < 3; ++k) tris[t][k] = base + (uint32_t)c.Choice(nv - 1);
    ink::mesh_internal::WriteTriangleIndicesToByteArray(t, stride, tris[t], data);
  }
  for (int t = 0; t < nt; ++t) PROP(ink::mesh_internal::ReadTriangleIndicesFromByteArray(t, stride, data) == tris[t], "index-round-trip", t);
  auto parts = ink::mesh_internal::PartitionTriangles(data, narrow ? X::k16BitUnpacked16BitPacked : X::k32BitUnpacked16BitPacked, cap);
  c.NonTrivial(parts.size() > 1);
  size_t t = 0;
  std::set<uint32_t> all;
  for (auto& tri : tris) all.insert(tri.begin(), tri.end());
  for (auto& p : parts) {
    PROP(p.vertex_indices.size() <= cap, "part-size", p.vertex_indices.size(), " of ", cap);
    std::set<uint32_t> used, uniq(p.vertex_indices.begin(), p.vertex_indices.end());
    PROP(uniq.size() == p.vertex_indices.size(), "part-vertices-unique");
    for (auto& tri : p.triangles) {
      PROP(t < tris.size(), "every-triangle-once");
      for (int k = 0; k < 3; ++k) {
        PROP(tri[k] < p.vertex_indices.size() && p.vertex_indices[tri[k]] == tris[t][k], "triangle-kept", t);
        used.insert(p.vertex_indices[tri[k]]);
      }
      ++t;
    }
    PROP(used == uniq, "part-vertices-used");
    PROP(nt == 0 || !p.triangles.empty(), "no-empty-part");
  }
  PROP(t == tris.size(), "every-triangle-once", t, " of ", tris.size());
  bool simple = true;
  for (auto& x : tris) simple &= x[0] != x[1] && x[1] != x[2] && x[0] != x[2];
  if (all.size() <= cap && simple) PROP(parts.size() == 1, "one-part-when-it-fits");
}
