// Mesh formats: which are accepted, how vertices are laid out, and what makes two formats equal.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "ink/geometry/mesh_format.h"

using ink::MeshFormat;
using pbt::Ctx;
using A = MeshFormat::AttributeType;
using I = MeshFormat::AttributeId;
using X = MeshFormat::IndexFormat;
using Attrs = std::vector<std::pair<A, I>>;

namespace {
// The published table of types: components, bits each, bytes packed, packed inside float mantissas.
struct Row { A type; const char* name; std::vector<int> bits; int comps, bytes; bool in_float; };
const std::vector<Row> kRows = {
    {A::kFloat1Unpacked, "kFloat1Unpacked", {}, 1, 4, false},
    {A::kFloat1PackedIn1UnsignedByte, "kFloat1PackedIn1UnsignedByte", {8}, 1, 1, false},
    {A::kFloat2Unpacked, "kFloat2Unpacked", {}, 2, 8, false},
    {A::kFloat2PackedIn1Float, "kFloat2PackedIn1Float", {12, 12}, 2, 4, true},
    {A::kFloat2PackedIn3UnsignedBytes_XY12, "kFloat2PackedIn3UnsignedBytes_XY12", {12, 12}, 2, 3, false},
    {A::kFloat2PackedIn4UnsignedBytes_X12_Y20, "kFloat2PackedIn4UnsignedBytes_X12_Y20", {12, 20}, 2, 4, false},
    {A::kFloat3Unpacked, "kFloat3Unpacked", {}, 3, 12, false},
    {A::kFloat3PackedIn1Float, "kFloat3PackedIn1Float", {8, 8, 8}, 3, 4, true},
    {A::kFloat3PackedIn2Floats, "kFloat3PackedIn2Floats", {16, 16, 16}, 3, 8, true},
    {A::kFloat3PackedIn4UnsignedBytes_XYZ10, "kFloat3PackedIn4UnsignedBytes_XYZ10", {10, 10, 10}, 3, 4, false},
    {A::kFloat4Unpacked, "kFloat4Unpacked", {}, 4, 16, false},
    {A::kFloat4PackedIn1Float, "kFloat4PackedIn1Float", {6, 6, 6, 6}, 4, 4, true},
    {A::kFloat4PackedIn2Floats, "kFloat4PackedIn2Floats", {12, 12, 12, 12}, 4, 8, true},
    {A::kFloat4PackedIn3Floats, "kFloat4PackedIn3Floats", {18, 18, 18, 18}, 4, 12, true},
};
const char* const kIds[] = {"kPosition", "kColorShiftHsl", "kOpacityShift", "kTexture", "kSideDerivative", "kSideLabel", "kForwardDerivative", "kForwardLabel", "kSurfaceUv",
                            "kCustom0", "kCustom1", "kCustom2", "kCustom3", "kCustom4", "kCustom5", "kCustom6", "kCustom7", "kCustom8", "kCustom9"};
const Row* Find(A t) {
  for (const Row& r : kRows) if (r.type == t) return &r;
  return nullptr;
}
Attrs GenAttrs(Ctx& c) {
  int n = c.Chance(1, 8) ? c.PickOf<int>({0, 15, 16, 17, 18}) : c.Len(1, 16);
  Attrs a;
  std::vector<int> ids;
  for (int k = 0; k < 19; ++k) ids.push_back(k);
  bool with_pos = !c.Chance(1, 12);
  for (int k = 0; k < n; ++k) {
    size_t j = with_pos && k == 0 ? 0 : c.Choice(ids.size() - 1);
    a.push_back({kRows[c.Choice(13)].type, (I)ids[j]});
    if (with_pos && k == 0) a[0].first = c.Chance(1, 10) ? a[0].first : c.PickOf<A>({A::kFloat2Unpacked, A::kFloat2PackedIn1Float, A::kFloat2PackedIn3UnsignedBytes_XY12, A::kFloat2PackedIn4UnsignedBytes_X12_Y20});
    if (ids.size() > 1) ids.erase(ids.begin() + j);
  }
  if (n > 1) std::swap(a[0], a[c.Choice(n - 1)]);
  if (n > 0 && c.Chance(1, 6)) {
    switch (c.Choice(2)) {
      case 0: a[c.Choice(n - 1)].second = a[c.Choice(n - 1)].second; break;
      case 1: a[c.Choice(n - 1)].first = (A)(14 + c.Choice(241)); break;
      case 2: a[c.Choice(n - 1)].second = (I)(19 + c.Choice(127 - 19)); break;
    }
  }
  return a;
}
X GenIndex(Ctx& c) { return c.Bool() ? X::k32BitUnpacked16BitPacked : X::k16BitUnpacked16BitPacked; }
bool Valid(const Attrs& a) {
  if (a.empty() || a.size() > 16) return false;
  std::set<I> ids;
  bool pos = false;
  for (auto [t, id] : a) {
    const Row* r = Find(t);
    if (!r || (int)id > 18 || !ids.insert(id).second) return false;
    if (id == I::kPosition) { pos = true; if (r->comps != 2) return false; }
  }
  return pos;
}
void CheckLayout(const MeshFormat& f, const Attrs& a, X x) {
  PROP(f.Attributes().size() == a.size(), "attributes");
  int un = 0, pk = 0;
  for (size_t k = 0; k < a.size(); ++k) {
    const auto& at = f.Attributes()[k];
    const Row& r = *Find(a[k].first);
    PROP(at.type == a[k].first && at.id == a[k].second, "attributes", k);
    PROP(at.unpacked_offset == un && at.packed_offset == pk, "offsets", k, ": ", at.unpacked_offset, " ", at.packed_offset, " expected ", un, " ", pk);
    PROP(at.unpacked_width == 4 * r.comps && at.packed_width == r.bytes, "widths", k);
    if (at.id == I::kPosition) PROP(f.PositionAttributeIndex() == k, "position-index", (int)f.PositionAttributeIndex());
    un += 4 * r.comps;
    pk += r.bytes;
  }
  PROP(f.UnpackedVertexStride() == un && f.PackedVertexStride() == pk, "strides");
  PROP(f.GetIndexFormat() == x, "index-format");
  PROP(f.UnpackedIndexStride() == (x == X::k16BitUnpacked16BitPacked ? 2 : 4), "index-stride", (int)f.UnpackedIndexStride());
}
std::string Text(const Attrs& a) {
  std::string s;
  for (auto [t, id] : a) s += pbt::Cat((int)t, ":", (int)id, " ");
  return s;
}
bool Same(const Attrs& a, const Attrs& b) { return a == b; }
bool SameUnpacked(const Attrs& a, const Attrs& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k) if (a[k].second != b[k].second || Find(a[k].first)->comps != Find(b[k].first)->comps) return false;
  return true;
}
}  // namespace

PBT(Create, 4, "more than one attribute") {
  Attrs a = GenAttrs(c);
  X x = GenIndex(c);
  c.Note("attributes (type:id) ", Text(a));
  c.NonTrivial(a.size() > 1);
  auto f = MeshFormat::Create(a, x);
  c.Label("accepted", f.ok());
  PROP(f.ok() == Valid(a), "accepted-exactly-when-valid", f.status().ToString());
  if (!f.ok()) {
    PROP(f.status().code() == absl::StatusCode::kInvalidArgument, "error-kind", f.status().ToString());
    return;
  }
  CheckLayout(*f, a, x);
  std::string text = absl::StrCat(*f);
  for (auto [t, id] : a) PROP(text.find(pbt::Cat("{", Find(t)->name, ", ", kIds[(int)id], "}")) != std::string::npos, "text", text);
}

PBT(Equality, 4, "the two formats differ in at most two places") {
  Attrs a = GenAttrs(c), b = a;
  X x = GenIndex(c), y = x;
  for (int k = c.Len(0, 2); k > 0; --k) {
    size_t n = b.size();
    if (!n) break;
    size_t i = c.Choice(n - 1), j = c.Choice(n - 1);
    switch (c.Choice(5)) {
      case 0: y = GenIndex(c); break;
      case 1: std::swap(b[i], b[j]); break;
      case 2: { const Row* r = Find(b[i].first); for (int t = 0; r && t < 20; ++t) { const Row& q = kRows[c.Choice(13)]; if (q.comps == r->comps) { b[i].first = q.type; break; } } break; }
      case 3: b[i].first = kRows[c.Choice(13)].type; break;
      case 4: b.erase(b.begin() + i); break;
      case 5: b[i].second = (I)c.Choice(18); break;
    }
  }
  auto f = MeshFormat::Create(a, x), g = MeshFormat::Create(b, y);
  ASSUME(f.ok() && g.ok());
  c.NonTrivial();
  c.Note("first ", Text(a), " second ", Text(b));
  bool eq = Same(a, b) && x == y;
  c.Label("equal", eq);
  PROP((*f == *g) == eq && (*f != *g) == !eq && (*g == *f) == eq, "equality");
  if (eq) PROP(absl::HashOf(*f) == absl::HashOf(*g), "hash");
  PROP(MeshFormat::IsPackedEquivalent(*f, *g) == Same(a, b), "packed-equivalent");
  PROP(MeshFormat::IsUnpackedEquivalent(*f, *g) == SameUnpacked(a, b), "unpacked-equivalent");
  PROP(MeshFormat::IsPackedEquivalent(*g, *f) == Same(a, b) && MeshFormat::IsUnpackedEquivalent(*g, *f) == SameUnpacked(a, b), "equivalence-symmetric");
  PROP((absl::StrCat(*f) == absl::StrCat(*g)) == eq, "text-tells-apart", absl::StrCat(*f));
}

PBT(Without, 3, "some attribute is removed") {
  Attrs a = GenAttrs(c);
  X x = GenIndex(c);
  auto f = MeshFormat::Create(a, x);
  ASSUME(f.ok());
  std::vector<I> gone;
  for (auto [t, id] : a) if (c.Chance(1, 3) && (id != I::kPosition || c.Chance(1, 8))) gone.push_back(id);
  if (c.Chance(1, 6)) gone.push_back((I)c.Choice(18));
  if (!gone.empty() && c.Chance(1, 6)) gone.push_back(gone[c.Choice(gone.size() - 1)]);
  c.NonTrivial(!gone.empty());
  std::set<I> set(gone.begin(), gone.end());
  Attrs rest;
  size_t hit = 0;
  for (auto& p : a) { if (set.count(p.second)) ++hit; else rest.push_back(p); }
  bool ok = hit == set.size() && !set.count(I::kPosition);
  c.Note("from ", Text(a), " removing ", gone);
  auto g = f->WithoutAttributes(gone);
  PROP(g.ok() == ok, "removal-allowed", g.status().ToString());
  if (ok) CheckLayout(*g, rest, x);
  else PROP(g.status().code() == absl::StatusCode::kInvalidArgument, "error-kind", g.status().ToString());
  CheckLayout(*f, a, x);
}

PBT(Tables, 1, "every type") {
  const Row& r = kRows[c.Choice(13)];
  c.NonTrivial();
  PROP(MeshFormat::ComponentCount(r.type) == r.comps, "components", r.name);
  auto bits = MeshFormat::PackedBitsPerComponent(r.type);
  PROP(bits.has_value() == !r.bits.empty(), "bits", r.name);
  if (bits) {
    PROP(bits->Size() == r.bits.size(), "bits", r.name);
    for (size_t k = 0; k < r.bits.size(); ++k) PROP((*bits)[k] == r.bits[k], "bits", r.name);
  }
  PROP(MeshFormat::IsUnpackedType(r.type) == r.bits.empty(), "unpacked", r.name);
  PROP(MeshFormat::IsPackedAsFloat(r.type) == r.in_float, "packed-as-float", r.name);
  PROP(MeshFormat::UnpackedAttributeSize(r.type) == 4 * r.comps && MeshFormat::PackedAttributeSize(r.type) == r.bytes, "sizes", r.name);
  PROP(MeshFormat::UnpackedIndexSize(X::k16BitUnpacked16BitPacked) == 2 && MeshFormat::UnpackedIndexSize(X::k32BitUnpacked16BitPacked) == 4, "index-sizes");
  PROP(MeshFormat::MaxAttributes() == 16, "max-attributes");
  PROP(absl::StrCat(r.type) == r.name, "text", absl::StrCat(r.type));
  int id = (int)c.Choice(18);
  PROP(absl::StrCat((I)id) == kIds[id], "text", absl::StrCat((I)id));
  MeshFormat d;
  CheckLayout(d, {{A::kFloat2Unpacked, I::kPosition}}, X::k32BitUnpacked16BitPacked);
}
