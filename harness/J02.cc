// The Java bridge of the geometry module: every entry point does what the C++ function behind it does, on the values and objects Java handed over.
#include <array>
#include <cmath>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include "engine/pbt.h"
#include "fake/fake_jni.h"
#include "harness/geo.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/intersects.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "sanitizer/allocator_interface.h"

using namespace ink;
using pbt::Ctx;

#define F1 jfloat
#define F2 jfloat, jfloat
#define F4 F2, F2
#define F6 F4, F2
#define J(module, cls, ret, name, ...) JNIEXPORT ret JNICALL Java_androidx_ink_##module##_##cls##_##name(JNIEnv*, jclass __VA_OPT__(,) __VA_ARGS__)
extern "C" {
J(geometry, Intersection, jboolean, nativeVecSegmentIntersects, F2, F4);
J(geometry, Intersection, jboolean, nativeVecTriangleIntersects, F2, F6);
J(geometry, Intersection, jboolean, nativeVecBoxIntersects, F2, F4);
J(geometry, Intersection, jboolean, nativeVecParallelogramIntersects, F2, F6);
J(geometry, Intersection, jboolean, nativeSegmentSegmentIntersects, F4, F4);
J(geometry, Intersection, jboolean, nativeSegmentTriangleIntersects, F4, F6);
J(geometry, Intersection, jboolean, nativeSegmentBoxIntersects, F4, F4);
J(geometry, Intersection, jboolean, nativeSegmentParallelogramIntersects, F4, F6);
J(geometry, Intersection, jboolean, nativeTriangleTriangleIntersects, F6, F6);
J(geometry, Intersection, jboolean, nativeTriangleBoxIntersects, F6, F4);
J(geometry, Intersection, jboolean, nativeTriangleParallelogramIntersects, F6, F6);
J(geometry, Intersection, jboolean, nativeBoxBoxIntersects, F4, F4);
J(geometry, Intersection, jboolean, nativeBoxParallelogramIntersects, F4, F6);
J(geometry, Intersection, jboolean, nativeParallelogramParallelogramIntersects, F6, F6);
J(geometry, Intersection, jboolean, nativeMeshVecIntersects, jlong, F2, F6);
J(geometry, Intersection, jboolean, nativeMeshSegmentIntersects, jlong, F4, F6);
J(geometry, Intersection, jboolean, nativeMeshTriangleIntersects, jlong, F6, F6);
J(geometry, Intersection, jboolean, nativeMeshBoxIntersects, jlong, F4, F6);
J(geometry, Intersection, jboolean, nativeMeshParallelogramIntersects, jlong, F6, F6);
J(geometry, Intersection, jboolean, nativeMeshPartitionedMeshIntersects, jlong, jlong, F6, F6);
J(geometry, PartitionedMeshNative, void, free, jlong);
J(geometry, PartitionedMeshNative, jlongArray, getNativeAddressesOfMeshes, jlong, jint);
J(geometry, PartitionedMeshNative, jint, getRenderGroupCount, jlong);
J(geometry, PartitionedMeshNative, jlong, getRenderGroupFormat, jlong, jint);
J(geometry, PartitionedMeshNative, jint, getOutlineCount, jlong, jint);
J(geometry, PartitionedMeshNative, jint, getOutlineVertexCount, jlong, jint, jint);
J(geometry, PartitionedMeshNative, void, fillOutlineMeshIndexAndMeshVertexIndex, jlong, jint, jint, jint, jintArray);
J(geometry, PartitionedMeshNative, jlong, alloc);
J(geometry, PartitionedMeshNative, jfloat, partitionedMeshTriangleCoverage, jlong, F6, F6);
J(geometry, PartitionedMeshNative, jfloat, partitionedMeshBoxCoverage, jlong, F4, F6);
J(geometry, PartitionedMeshNative, jfloat, partitionedMeshParallelogramCoverage, jlong, F6, F6);
J(geometry, PartitionedMeshNative, jfloat, partitionedMeshPartitionedMeshCoverage, jlong, jlong, F6);
J(geometry, PartitionedMeshNative, jboolean, partitionedMeshTriangleCoverageIsGreaterThan, jlong, F6, F1, F6);
J(geometry, PartitionedMeshNative, jboolean, partitionedMeshBoxCoverageIsGreaterThan, jlong, F4, F1, F6);
J(geometry, PartitionedMeshNative, jboolean, partitionedMeshParallelogramCoverageIsGreaterThan, jlong, F6, F1, F6);
J(geometry, PartitionedMeshNative, jboolean, partitionedMeshPartitionedMeshCoverageIsGreaterThan, jlong, jlong, F1, F6);
J(geometry, PartitionedMeshNative, void, initializeSpatialIndex, jlong);
J(geometry, PartitionedMeshNative, jboolean, isSpatialIndexInitialized, jlong);
J(geometry, MeshNative, void, freeNative, jlong);
J(geometry, MeshNative, jobject, createRawVertexBuffer, jlong);
J(geometry, MeshNative, jint, getVertexStride, jlong);
J(geometry, MeshNative, jint, getVertexCount, jlong);
J(geometry, MeshNative, jobject, createRawTriangleIndexBuffer, jlong);
J(geometry, MeshNative, jint, getTriangleCount, jlong);
J(geometry, MeshNative, jint, getAttributeCount, jlong);
J(geometry, MeshNative, void, fillBounds, jlong, jobject);
J(geometry, MeshNative, jint, fillAttributeUnpackingParams, jlong, jint, jfloatArray, jfloatArray);
J(geometry, MeshNative, jlong, allocCopyOfFormat, jlong);
J(geometry, MeshNative, void, fillPosition, jlong, jint, jobject);
J(geometry, MeshNative, jlong, allocNativeNewEmptyMesh);
J(geometry, MeshFormat, jboolean, nativeIsPackedEquivalent, jlong, jlong);
J(geometry, MeshFormat, jboolean, nativeIsUnpackedEquivalent, jlong, jlong);
J(geometry, MeshFormat, void, nativeFree, jlong);
J(geometry, BoxAccumulatorNative, void, nativeAddSegment, jboolean, F4, F4, jobject);
J(geometry, BoxAccumulatorNative, void, nativeAddTriangle, jboolean, F4, F6, jobject);
J(geometry, BoxAccumulatorNative, void, nativeAddParallelogram, jboolean, F4, F6, jobject);
J(geometry, BoxAccumulatorNative, void, nativeAddPoint, jboolean, F4, F2, jobject);
J(geometry, BoxAccumulatorNative, void, nativeAddOptionalBox, jboolean, F4, jboolean, F4, jobject);
J(geometry_internal, ParallelogramNative, jobject, createBoundingBox, F6, jclass, jclass);
J(geometry_internal, ParallelogramNative, void, populateBoundingBox, F6, jobject);
J(geometry_internal, ParallelogramNative, jobjectArray, createSemiAxes, F6, jclass);
J(geometry_internal, ParallelogramNative, void, populateSemiAxes, F6, jobject, jobject);
J(geometry_internal, ParallelogramNative, jobjectArray, createCorners, F6, jclass);
J(geometry_internal, ParallelogramNative, void, populateCorners, F6, jobject, jobject, jobject, jobject);
J(geometry_internal, ParallelogramNative, jboolean, contains, F6, F2);
J(geometry_internal, BoxNative, jobject, createCenter, F4, jclass);
J(geometry_internal, BoxNative, void, populateCenter, F4, jobject);
J(geometry_internal, BoxNative, jboolean, containsPoint, F4, F2);
J(geometry_internal, BoxNative, jboolean, containsBox, F4, F4);
J(geometry, TriangleNative, jboolean, nativeContains, F6, F2);
J(geometry_internal, AffineTransformNative, jobject, createFromApplyParallelogram, F6, F6, jclass, jclass);
J(geometry_internal, AffineTransformNative, void, populateFromApplyParallelogram, F6, F6, jobject);
J(geometry_internal, VecNative, jobject, unitVec, F2, jclass);
J(geometry_internal, VecNative, void, populateUnitVec, F2, jobject);
J(geometry_internal, VecNative, jfloat, absoluteAngleBetween, F2, F2);
J(geometry_internal, VecNative, jfloat, signedAngleBetween, F2, F2);
J(geometry, Angle, jfloat, nativeNormalized, F1);
J(geometry, Angle, jfloat, nativeNormalizedAboutZero, F1);
}
#define NAME(module, cls, name) Java_androidx_ink_##module##_##cls##_##name

namespace {
const char* kVec = "androidx/ink/geometry/ImmutableVec";
const char* kMutableVec = "androidx/ink/geometry/MutableVec";
const char* kBox = "androidx/ink/geometry/ImmutableBox";
const char* kMutableBox = "androidx/ink/geometry/MutableBox";
const char* kQuad = "androidx/ink/geometry/ImmutableParallelogram";
const char* kMutableQuad = "androidx/ink/geometry/MutableParallelogram";
const char* kAccumulator = "androidx/ink/geometry/BoxAccumulator";
void Declare(fake::Env& e) {
  e.members[kVec] = {"<init>(FF)V"};
  e.members[kMutableVec] = {"setX(F)V", "setY(F)V"};
  e.members[kBox] = {"!fromTwoPoints(Landroidx/ink/geometry/Vec;Landroidx/ink/geometry/Vec;)Landroidx/ink/geometry/ImmutableBox;"};
  e.members[kMutableBox] = {"setXBounds(FF)Landroidx/ink/geometry/MutableBox;", "setYBounds(FF)Landroidx/ink/geometry/MutableBox;"};
  e.members[kQuad] = {"!fromCenterDimensionsRotationAndShear(Landroidx/ink/geometry/ImmutableVec;FFFF)Landroidx/ink/geometry/ImmutableParallelogram;"};
  e.members[kMutableQuad] = {"setCenterDimensionsRotationAndShear(FFFFFF)V"};
  e.members[kAccumulator] = {"reset()Landroidx/ink/geometry/BoxAccumulator;", "overwriteFrom(FFFF)Landroidx/ink/geometry/BoxAccumulator;"};
  for (const char* n : {kVec, kMutableVec, kBox, kMutableBox, kQuad, kMutableQuad, kAccumulator}) e.DefineClass(n);
}
void Clean(fake::Env& e) {
  PROP(e.errors.empty(), "jni-protocol", e.errors.front());
  PROP(!e.pending, "exception", e.PendingObj()->text);
  PROP(e.Balanced(), "held", "strings, arrays or references are still held");
}
bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
std::string Show(const std::vector<double>& v) { std::string s; for (double d : v) s += pbt::Cat(" ", d); return s; }
void Equal(const std::vector<double>& got, const std::vector<double>& want, const char* what) {
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); ++i) ok = Same(got[i], want[i]);
  PROP(ok, what, "got", Show(got), " expected", Show(want));
}
// What the Java object that was made or filled holds.
std::vector<double> VecOf(fake::Env& e, fake::Obj* o) {
  PROP(o && o->cls == kVec, "vec-class");
  PROP(o->made_by == "<init>(FF)V", "vec-made", o->made_by);
  return o->ctor;
}
std::vector<double> FilledVec(fake::Obj* o) {
  PROP(o->call_count["setX"] == 1 && o->call_count["setY"] == 1, "vec-filled");
  return {o->calls["setX"][0], o->calls["setY"][0]};
}
std::vector<double> BoxOf(fake::Env& e, fake::Obj* o) {
  PROP(o && o->made_by.rfind("fromTwoPoints", 0) == 0 && o->obj_args.size() == 2, "box-made");
  auto a = VecOf(e, o->obj_args[0]), b = VecOf(e, o->obj_args[1]);
  return {a[0], a[1], b[0], b[1]};
}
std::vector<double> FilledBox(fake::Obj* o) {
  PROP(o->call_count["setXBounds"] == 1 && o->call_count["setYBounds"] == 1, "box-filled");
  auto x = o->calls["setXBounds"], y = o->calls["setYBounds"];
  return {x[0], y[0], x[1], y[1]};
}
std::vector<double> D(const Rect& r) { return {r.XMin(), r.YMin(), r.XMax(), r.YMax()}; }
std::vector<double> D(Point p) { return {p.x, p.y}; }
std::vector<double> D(Vec p) { return {p.x, p.y}; }
std::vector<double> D(const Quad& q) { return {q.Center().x, q.Center().y, q.Width(), q.Height(), q.Rotation().ValueInRadians(), q.ShearFactor()}; }
void Accumulated(fake::Obj* o, const Envelope& want, const char* what) {
  int n = o->call_count["reset"] + o->call_count["overwriteFrom"];
  PROP(n == 1, what, n, " calls");
  if (want.IsEmpty()) PROP(o->call_count["reset"] == 1, what, "not reset");
  else Equal(o->calls["overwriteFrom"], D(*want.AsRect()), what);
}

// Shapes with the numbers Java passes for them.
template <typename T, size_t N> struct Arg { T value; std::array<jfloat, N> f; };
struct Gen {
  Ctx& c;
  int kind = c.Choice(3);
  float V() {
    switch (kind) {
      case 0: return c.Signed(-4, 4);
      case 1: return c.Signed(-12, 12) * 0.5f;
      case 2: return c.UniformF(-5, 5);
      default: return c.UniformF(-5, 5) * 100;
    }
  }
  float Size() { return c.Chance(1, 6) ? 0 : std::abs(V()) + (c.Chance(1, 8) ? -1 : 0); }
  void N(const std::string& s) { c.Note(s); }
  Arg<Point, 2> P() { float x = V(), y = V(); N(pbt::Show(Point{x, y})); return {{x, y}, {x, y}}; }
  Arg<Segment, 4> S() { std::array<jfloat, 4> f{V(), V(), V(), V()}; Segment s{{f[0], f[1]}, {f[2], f[3]}}; N(pbt::Show(s)); return {s, f}; }
  Arg<Triangle, 6> T() { std::array<jfloat, 6> f{V(), V(), V(), V(), V(), V()}; Triangle s{{f[0], f[1]}, {f[2], f[3]}, {f[4], f[5]}}; N(pbt::Show(s)); return {s, f}; }
  Arg<Rect, 4> B() { std::array<jfloat, 4> f{V(), V(), V(), V()}; if (f[0] > f[2]) std::swap(f[0], f[2]); if (f[1] > f[3]) std::swap(f[1], f[3]); Rect r = Rect::FromTwoPoints({f[0], f[1]}, {f[2], f[3]}); N(pbt::Show(r)); return {r, f}; }
  Arg<Quad, 6> Q() {
    std::array<jfloat, 6> f{V(), V(), Size(), Size(), c.Bool() ? 0 : c.UniformF(-7, 7), c.Bool() ? 0 : c.UniformF(-2, 2)};
    Quad q = Quad::FromCenterDimensionsRotationAndShear({f[0], f[1]}, f[2], f[3], Angle::Radians(f[4]), f[5]);
    N(pbt::Show(q));
    return {q, f};
  }
  Arg<AffineTransform, 6> A() {
    std::array<jfloat, 6> f{1, 0, 0, 0, 1, 0};
    int k = c.Choice(3);
    if (k == 1) f = {1, 0, V(), 0, 1, V()};
    if (k == 2) f = {c.UniformF(0.3f, 2), c.UniformF(-1, 1), V(), c.UniformF(-1, 1), c.UniformF(0.3f, 2), V()};
    if (k == 3) f = {c.PickOf<float>({0, 1, -1}), c.PickOf<float>({2, 1, -1}), V(), c.PickOf<float>({1, -1, 3}), c.PickOf<float>({0, 1}), V()};
    AffineTransform t(f[0], f[1], f[2], f[3], f[4], f[5]);
    N(pbt::Show(t));
    return {t, f};
  }
};
using I = MeshFormat::AttributeId;
using T = MeshFormat::AttributeType;
MeshFormat Format(Ctx& c) {
  std::vector<std::pair<T, I>> a = {{c.PickOf({T::kFloat2Unpacked, T::kFloat2PackedIn1Float, T::kFloat2PackedIn3UnsignedBytes_XY12}), I::kPosition}};
  if (c.Bool()) a.push_back({c.PickOf({T::kFloat1Unpacked, T::kFloat1PackedIn1UnsignedByte}), I::kOpacityShift});
  if (c.Bool()) a.push_back({c.PickOf({T::kFloat3Unpacked, T::kFloat3PackedIn1Float, T::kFloat3PackedIn4UnsignedBytes_XYZ10}), I::kColorShiftHsl});
  if (c.Bool()) std::swap(a.front(), a.back());
  auto f = MeshFormat::Create(a, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
  if (!f.ok()) throw pbt::Discard{};
  return *f;
}
MutableMesh Shape(Gen& g, const MeshFormat& f, std::vector<uint32_t>* outline) {
  Ctx& c = g.c;
  MutableMesh m(f);
  int n = c.Int(1, 6);
  for (int i = 0; i < n; ++i) {
    auto t = g.T().value;
    uint32_t at = m.VertexCount();
    for (Point p : {t.p0, t.p1, t.p2}) m.AppendVertex(p);
    if (t.SignedArea() < 0) m.AppendTriangleIndices({at, at + 2, at + 1});
    else m.AppendTriangleIndices({at, at + 1, at + 2});
  }
  for (uint32_t v = 0; v < m.VertexCount(); ++v) for (uint32_t k = 0; k < f.Attributes().size(); ++k) {
    if (k == f.PositionAttributeIndex()) continue;
    SmallArray<float, 4> vals(MeshFormat::ComponentCount(f.Attributes()[k].type));
    for (int j = 0; j < vals.Size(); ++j) vals[j] = c.UniformF(0, 1);
    m.SetFloatVertexAttribute(v, k, vals);
  }
  int len = c.Int(1, 5);
  for (int i = 0; i < len; ++i) outline->push_back(c.Choice(m.VertexCount() - 1));
  return m;
}
std::unique_ptr<PartitionedMesh> Mixed(Gen& g) {
  if (g.c.Chance(1, 12)) return std::make_unique<PartitionedMesh>();
  std::vector<MutableMesh> ms;
  std::vector<std::vector<uint32_t>> outs;
  int groups = g.c.Int(1, 3);
  for (int i = 0; i < groups; ++i) { outs.emplace_back(); ms.push_back(Shape(g, Format(g.c), &outs.back())); }
  std::vector<std::array<absl::Span<const uint32_t>, 1>> spans;
  for (auto& o : outs) spans.push_back({absl::MakeConstSpan(o)});
  std::vector<PartitionedMesh::MutableMeshGroup> gs;
  for (int i = 0; i < groups; ++i) gs.push_back({&ms[i], g.c.Chance(1, 5) ? absl::Span<const absl::Span<const uint32_t>>() : absl::MakeConstSpan(spans[i])});
  auto r = PartitionedMesh::FromMutableMeshGroups(gs);
  if (!r.ok()) throw pbt::Discard{};
  return std::make_unique<PartitionedMesh>(*std::move(r));
}
jlong Ptr(const void* p) { return reinterpret_cast<jlong>(p); }

template <typename Fn, typename... As> auto Call(Fn fn, fake::Env& e, const As&... as) {
  return std::apply(fn, std::tuple_cat(std::tuple<JNIEnv*, jclass>(&e.env, nullptr), as...));
}
template <typename V> std::tuple<V> One(V v) { return {v}; }

// Whether what Java gave back is really gone.
void Gone(jlong p) { PROP(!__sanitizer_get_ownership(reinterpret_cast<void*>(p)), "not-freed"); }

PBT(Crossing, 3, "shapes meet") {
  fake::Env e;
  Gen g{c};
  bool got = false, want = false;
  int k = c.Choice(19);
  c.Note("entry point ", k);
#define PAIR(n, a, b, name) \
  case n: { auto x = g.a(); auto y = g.b(); got = Call(NAME(geometry, Intersection, name), e, x.f, y.f); want = Intersects(x.value, y.value); break; }
#define MESH(n, a, name) \
  case n: { auto m = Mixed(g); auto x = g.a(); auto t = g.A(); got = Call(NAME(geometry, Intersection, name), e, One(Ptr(m.get())), x.f, t.f); want = Intersects(x.value, *m, t.value); break; }
  switch (k) {
    PAIR(0, P, S, nativeVecSegmentIntersects)
    PAIR(1, P, T, nativeVecTriangleIntersects)
    PAIR(2, P, B, nativeVecBoxIntersects)
    PAIR(3, P, Q, nativeVecParallelogramIntersects)
    PAIR(4, S, S, nativeSegmentSegmentIntersects)
    PAIR(5, S, T, nativeSegmentTriangleIntersects)
    PAIR(6, S, B, nativeSegmentBoxIntersects)
    PAIR(7, S, Q, nativeSegmentParallelogramIntersects)
    PAIR(8, T, T, nativeTriangleTriangleIntersects)
    PAIR(9, T, B, nativeTriangleBoxIntersects)
    PAIR(10, T, Q, nativeTriangleParallelogramIntersects)
    PAIR(11, B, B, nativeBoxBoxIntersects)
    PAIR(12, B, Q, nativeBoxParallelogramIntersects)
    PAIR(13, Q, Q, nativeParallelogramParallelogramIntersects)
    MESH(14, P, nativeMeshVecIntersects)
    MESH(15, S, nativeMeshSegmentIntersects)
    MESH(16, T, nativeMeshTriangleIntersects)
    MESH(17, B, nativeMeshBoxIntersects)
    MESH(18, Q, nativeMeshParallelogramIntersects)
    case 19: {
      auto m = Mixed(g), o = Mixed(g);
      auto t = g.A(), u = g.A();
      got = Call(NAME(geometry, Intersection, nativeMeshPartitionedMeshIntersects), e, One(Ptr(m.get())), One(Ptr(o.get())), t.f, u.f);
      want = Intersects(*m, t.value, *o, u.value);
      break;
    }
  }
  c.NonTrivial(want);
  PROP(got == want, "meet", "entry point ", k, " says ", got);
  Clean(e);
}

PBT(Covering, 2, "part of the shape is covered") {
  fake::Env e;
  Gen g{c};
  auto m = Mixed(g);
  auto t = g.A();
  if (c.Bool()) {
    PROP(!Call(NAME(geometry, PartitionedMeshNative, isSpatialIndexInitialized), e, One(Ptr(m.get()))) || m->RenderGroupMeshes(0).empty(), "index-early");
    Call(NAME(geometry, PartitionedMeshNative, initializeSpatialIndex), e, One(Ptr(m.get())));
  }
  PROP((bool)Call(NAME(geometry, PartitionedMeshNative, isSpatialIndexInitialized), e, One(Ptr(m.get()))) == m->IsSpatialIndexInitialized(), "index");
  float got = 0, want = 0, th = 0;
  bool more = false, want_more = false;
  int k = c.Choice(3);
  c.Note("entry point ", k);
  auto limit = [&] { th = c.Weighted({2, 1, 1}) == 0 ? c.UniformF(-0.2f, 1.2f) : c.Bool() ? want : c.PickOf<float>({0, 1, 0.5f}); c.Note("limit ", th); };
#define COVER(n, a, name) \
  case n: { auto x = g.a(); got = Call(NAME(geometry, PartitionedMeshNative, name), e, One(Ptr(m.get())), x.f, t.f); want = m->Coverage(x.value, t.value); limit(); \
    more = Call(NAME(geometry, PartitionedMeshNative, name##IsGreaterThan), e, One(Ptr(m.get())), x.f, One(th), t.f); want_more = m->CoverageIsGreaterThan(x.value, th, t.value); break; }
  switch (k) {
    COVER(0, T, partitionedMeshTriangleCoverage)
    COVER(1, B, partitionedMeshBoxCoverage)
    COVER(2, Q, partitionedMeshParallelogramCoverage)
    case 3: {
      auto o = Mixed(g);
      got = Call(NAME(geometry, PartitionedMeshNative, partitionedMeshPartitionedMeshCoverage), e, One(Ptr(m.get())), One(Ptr(o.get())), t.f);
      want = m->Coverage(*o, t.value);
      limit();
      more = Call(NAME(geometry, PartitionedMeshNative, partitionedMeshPartitionedMeshCoverageIsGreaterThan), e, One(Ptr(m.get())), One(Ptr(o.get())), One(th), t.f);
      want_more = m->CoverageIsGreaterThan(*o, th, t.value);
      break;
    }
  }
  c.NonTrivial(want > 0 && want < 1);
  PROP(got == want, "covered", "entry point ", k, " says ", got, " instead of ", want);
  PROP(more == want_more, "more", "entry point ", k, " says ", more, " for more than ", th, " of ", want);
  Clean(e);
}

PBT(Boxes, 2, "the bounds grow") {
  fake::Env e;
  Declare(e);
  Gen g{c};
  bool has = c.Chance(3, 4);
  auto b = g.B();
  if (!has) c.Note("nothing so far");
  Envelope n = has ? Envelope(b.value) : Envelope();
  Envelope before = n;
  fake::Obj* o = e.New(kAccumulator);
  jobject out = e.Local(o);
  std::tuple<jboolean> h{has};
  switch (c.Choice(4)) {
    case 0: { auto x = g.S(); Call(NAME(geometry, BoxAccumulatorNative, nativeAddSegment), e, h, b.f, x.f, One(out)); n.Add(x.value); break; }
    case 1: { auto x = g.T(); Call(NAME(geometry, BoxAccumulatorNative, nativeAddTriangle), e, h, b.f, x.f, One(out)); n.Add(x.value); break; }
    case 2: { auto x = g.Q(); Call(NAME(geometry, BoxAccumulatorNative, nativeAddParallelogram), e, h, b.f, x.f, One(out)); n.Add(x.value); break; }
    case 3: { auto x = g.P(); Call(NAME(geometry, BoxAccumulatorNative, nativeAddPoint), e, h, b.f, x.f, One(out)); n.Add(x.value); break; }
    default: {
      auto x = g.B();
      bool other = c.Bool();
      c.Note(other ? "added" : "nothing added");
      Call(NAME(geometry, BoxAccumulatorNative, nativeAddOptionalBox), e, h, b.f, One<jboolean>(other), x.f, One(out));
      if (other) n.Add(x.value);
      else {
        // Nothing need be written where nothing changes.
        if (o->call_count.empty()) { Clean(e); return; }
      }
    }
  }
  c.NonTrivial(before.IsEmpty() != n.IsEmpty() || (!n.IsEmpty() && D(*before.AsRect()) != D(*n.AsRect())));
  Accumulated(o, n, "accumulated");
  Clean(e);
}

PBT(Values, 3, "always") {
  fake::Env e;
  Declare(e);
  Gen g{c};
  c.NonTrivial();
  jclass vec = e.Class(kVec), box = e.Class(kBox), quad = e.Class(kQuad);
  auto made = [&](jobject h) { return e.Peek(h); };
  auto mv = [&] { return e.New(kMutableVec); };
  int k = c.Choice(11);
  c.Note("entry points ", k);
  switch (k) {
    case 0: {
      auto q = g.Q();
      Rect want = *Envelope(q.value).AsRect();
      Equal(BoxOf(e, made(Call(NAME(geometry_internal, ParallelogramNative, createBoundingBox), e, q.f, One(box), One(vec)))), D(want), "quad-box");
      fake::Obj* o = e.New(kMutableBox);
      Call(NAME(geometry_internal, ParallelogramNative, populateBoundingBox), e, q.f, One(e.Local(o)));
      Equal(FilledBox(o), D(want), "quad-box");
      break;
    }
    case 1: {
      auto q = g.Q();
      auto want = q.value.SemiAxes();
      fake::Obj* o = made(Call(NAME(geometry_internal, ParallelogramNative, createSemiAxes), e, q.f, One(vec)));
      PROP(o && o->objs.size() == 2, "axes");
      Equal(VecOf(e, o->objs[0]), D(want.first), "axis");
      Equal(VecOf(e, o->objs[1]), D(want.second), "axis");
      fake::Obj *a = mv(), *b = mv();
      Call(NAME(geometry_internal, ParallelogramNative, populateSemiAxes), e, q.f, One(e.Local(a)), One(e.Local(b)));
      Equal(FilledVec(a), D(want.first), "axis");
      Equal(FilledVec(b), D(want.second), "axis");
      break;
    }
    case 2: {
      auto q = g.Q();
      auto want = q.value.Corners();
      fake::Obj* o = made(Call(NAME(geometry_internal, ParallelogramNative, createCorners), e, q.f, One(vec)));
      PROP(o && o->objs.size() == 4, "corners");
      for (int i = 0; i < 4; ++i) Equal(VecOf(e, o->objs[i]), D(want[i]), "corner");
      fake::Obj* p[4] = {mv(), mv(), mv(), mv()};
      Call(NAME(geometry_internal, ParallelogramNative, populateCorners), e, q.f, One(e.Local(p[0])), One(e.Local(p[1])), One(e.Local(p[2])), One(e.Local(p[3])));
      for (int i = 0; i < 4; ++i) Equal(FilledVec(p[i]), D(want[i]), "corner");
      break;
    }
    case 3: {
      auto q = g.Q();
      auto p = g.P();
      if (c.Bool()) { Point m = q.value.Center(); p = {m, {m.x, m.y}}; }
      PROP((bool)Call(NAME(geometry_internal, ParallelogramNative, contains), e, q.f, p.f) == q.value.Contains(p.value), "quad-contains");
      break;
    }
    case 4: {
      auto b = g.B();
      Equal(VecOf(e, made(Call(NAME(geometry_internal, BoxNative, createCenter), e, b.f, One(vec)))), D(b.value.Center()), "center");
      fake::Obj* o = mv();
      Call(NAME(geometry_internal, BoxNative, populateCenter), e, b.f, One(e.Local(o)));
      Equal(FilledVec(o), D(b.value.Center()), "center");
      break;
    }
    case 5: {
      auto b = g.B(), d = g.B();
      auto p = g.P();
      PROP((bool)Call(NAME(geometry_internal, BoxNative, containsPoint), e, b.f, p.f) == b.value.Contains(p.value), "box-point");
      if (c.Bool()) {
        // Often within, or all but within.
        Rect r = Rect::FromTwoPoints({std::clamp(d.f[0], b.f[0], b.f[2]), std::clamp(d.f[1], b.f[1], b.f[3])}, {std::clamp(d.f[2], b.f[0], b.f[2]), c.Chance(1, 3) ? d.f[3] : std::clamp(d.f[3], b.f[1], b.f[3])});
        d = {r, {r.XMin(), r.YMin(), r.XMax(), r.YMax()}};
        c.Note(pbt::Show(r));
      }
      PROP((bool)Call(NAME(geometry_internal, BoxNative, containsBox), e, b.f, d.f) == b.value.Contains(d.value), "box-box");
      break;
    }
    case 6: {
      auto t = g.T();
      auto p = g.P();
      PROP((bool)Call(NAME(geometry, TriangleNative, nativeContains), e, t.f, p.f) == t.value.Contains(p.value), "triangle-point");
      break;
    }
    case 7: {
      auto t = g.A();
      auto q = g.Q();
      Quad want = t.value.Apply(q.value);
      fake::Obj* o = made(Call(NAME(geometry_internal, AffineTransformNative, createFromApplyParallelogram), e, t.f, q.f, One(quad), One(vec)));
      PROP(o && o->made_by.rfind("fromCenterDimensionsRotationAndShear", 0) == 0 && o->obj_args.size() == 1, "quad-made");
      std::vector<double> got = VecOf(e, o->obj_args[0]);
      got.insert(got.end(), o->ctor.begin(), o->ctor.end());
      Equal(got, D(want), "transformed");
      fake::Obj* f = e.New(kMutableQuad);
      Call(NAME(geometry_internal, AffineTransformNative, populateFromApplyParallelogram), e, t.f, q.f, One(e.Local(f)));
      Equal(f->calls["setCenterDimensionsRotationAndShear"], D(want), "transformed");
      break;
    }
    case 8: {
      auto p = g.P();
      Vec v{p.value.x, p.value.y};
      Equal(VecOf(e, made(Call(NAME(geometry_internal, VecNative, unitVec), e, p.f, One(vec)))), D(v.AsUnitVec()), "unit");
      fake::Obj* o = mv();
      Call(NAME(geometry_internal, VecNative, populateUnitVec), e, p.f, One(e.Local(o)));
      Equal(FilledVec(o), D(v.AsUnitVec()), "unit");
      break;
    }
    case 9: {
      auto p = g.P(), q = g.P();
      Vec v{p.value.x, p.value.y}, w{q.value.x, q.value.y};
      PROP(Same(Call(NAME(geometry_internal, VecNative, absoluteAngleBetween), e, p.f, q.f), Vec::AbsoluteAngleBetween(v, w).ValueInRadians()), "absolute-angle");
      PROP(Same(Call(NAME(geometry_internal, VecNative, signedAngleBetween), e, p.f, q.f), Vec::SignedAngleBetween(v, w).ValueInRadians()), "signed-angle");
      break;
    }
    default: {
      float a = c.Bool() ? c.UniformF(-20, 20) : c.AnyFinite();
      c.Note("angle ", a);
      PROP(Same(Call(NAME(geometry, Angle, nativeNormalized), e, One(a)), Angle::Radians(a).Normalized().ValueInRadians()), "normalized");
      PROP(Same(Call(NAME(geometry, Angle, nativeNormalizedAboutZero), e, One(a)), Angle::Radians(a).NormalizedAboutZero().ValueInRadians()), "normalized-about-zero");
    }
  }
  Clean(e);
}

void CheckMesh(fake::Env& e, jlong h, const Mesh& m, Ctx& c) {
  PROP(Call(NAME(geometry, MeshNative, getVertexCount), e, One(h)) == (jint)m.VertexCount(), "vertex-count");
  PROP(Call(NAME(geometry, MeshNative, getVertexStride), e, One(h)) == (jint)m.VertexStride(), "stride");
  PROP(Call(NAME(geometry, MeshNative, getTriangleCount), e, One(h)) == (jint)m.TriangleCount(), "triangle-count");
  PROP(Call(NAME(geometry, MeshNative, getAttributeCount), e, One(h)) == (jint)m.Format().Attributes().size(), "attribute-count");
  auto bytes = [&](jobject b, absl::Span<const std::byte> want, const char* what) {
    fake::Obj* o = e.Peek(b);
    if (want.empty()) { PROP(!o || o->capacity == 0, what, "of an empty mesh"); return; }
    PROP(o && o->capacity == (jlong)want.size() && std::memcmp(o->buffer, want.data(), want.size()) == 0, what, o ? o->capacity : -1, " bytes of ", want.size());
    // The buffer shows the mesh's own data, which stays where it is.
    PROP(o->buffer == (const void*)want.data(), what, "is a copy");
  };
  bytes(Call(NAME(geometry, MeshNative, createRawVertexBuffer), e, One(h)), m.RawVertexData(), "vertex-data");
  bytes(Call(NAME(geometry, MeshNative, createRawTriangleIndexBuffer), e, One(h)), m.RawIndexData(), "index-data");
  fake::Obj* o = e.New(kAccumulator);
  Call(NAME(geometry, MeshNative, fillBounds), e, One(h), One(e.Local(o)));
  Accumulated(o, m.Bounds(), "mesh-bounds");
  for (uint32_t a = 0; a < m.Format().Attributes().size(); ++a) {
    fake::Obj *off = e.New("[F"), *sc = e.New("[F");
    off->floats.assign(4, -77), sc->floats.assign(4, -77);
    jint n = Call(NAME(geometry, MeshNative, fillAttributeUnpackingParams), e, One(h), One<jint>(a), One(e.Local<jfloatArray>(off)), One(e.Local<jfloatArray>(sc)));
    auto want = m.VertexAttributeUnpackingParams(a).components.Values();
    PROP(n == (jint)want.size(), "params-count", n);
    for (int j = 0; j < 4; ++j) {
      PROP(off->floats[j] == (j < n ? want[j].offset : -77), "offset", j, " of attribute ", a);
      PROP(sc->floats[j] == (j < n ? want[j].scale : -77), "scale", j, " of attribute ", a);
    }
  }
  if (m.VertexCount() > 0) {
    uint32_t v = c.Choice(m.VertexCount() - 1);
    fake::Obj* p = e.New(kMutableVec);
    Call(NAME(geometry, MeshNative, fillPosition), e, One(h), One<jint>(v), One(e.Local(p)));
    Equal(FilledVec(p), D(m.VertexPosition(v)), "position");
  }
  jlong f = Call(NAME(geometry, MeshNative, allocCopyOfFormat), e, One(h));
  PROP(f && *reinterpret_cast<MeshFormat*>(f) == m.Format(), "format-copy");
  Call(NAME(geometry, MeshFormat, nativeFree), e, One(f)), Gone(f);
}
PBT(Meshes, 2, "more than one render group") {
  fake::Env e;
  Declare(e);
  Gen g{c};
  auto m = Mixed(g);
  c.NonTrivial(m->RenderGroupCount() > 1);
  // What Java holds is its own: the meshes it asked for outlive the shape they came from.
  PartitionedMesh copy = *m;
  jlong p = Ptr(m.release());
  PROP(Call(NAME(geometry, PartitionedMeshNative, getRenderGroupCount), e, One(p)) == (jint)copy.RenderGroupCount(), "group-count");
  std::vector<std::vector<jlong>> held;
  std::vector<jlong> formats;
  for (uint32_t i = 0; i < copy.RenderGroupCount(); ++i) {
    jlong f = Call(NAME(geometry, PartitionedMeshNative, getRenderGroupFormat), e, One(p), One<jint>(i));
    PROP(f && *reinterpret_cast<MeshFormat*>(f) == copy.RenderGroupFormat(i), "group-format");
    formats.push_back(f);
    fake::Obj* a = e.Peek(Call(NAME(geometry, PartitionedMeshNative, getNativeAddressesOfMeshes), e, One(p), One<jint>(i)));
    PROP(a && a->longs.size() == copy.RenderGroupMeshes(i).size(), "mesh-count");
    held.push_back(a->longs);
    PROP(Call(NAME(geometry, PartitionedMeshNative, getOutlineCount), e, One(p), One<jint>(i)) == (jint)copy.OutlineCount(i), "outline-count");
    for (uint32_t k = 0; k < copy.OutlineCount(i); ++k) {
      auto want = copy.Outline(i, k);
      PROP(Call(NAME(geometry, PartitionedMeshNative, getOutlineVertexCount), e, One(p), One<jint>(i), One<jint>(k)) == (jint)want.size(), "outline-length");
      for (size_t v = 0; v < want.size(); ++v) {
        fake::Obj* two = e.New("[I");
        two->ints.assign(2, -7);
        Call(NAME(geometry, PartitionedMeshNative, fillOutlineMeshIndexAndMeshVertexIndex), e, One(p), One<jint>(i), One<jint>(k), One<jint>(v), One(e.Local<jintArray>(two)));
        PROP(two->ints[0] == want[v].mesh_index && two->ints[1] == want[v].vertex_index, "outline-vertex", "group ", i, " outline ", k, " vertex ", v);
      }
    }
  }
  for (size_t i = 0; i < formats.size(); ++i) for (size_t j = 0; j < formats.size(); ++j) {
    const MeshFormat &a = copy.RenderGroupFormat(i), &b = copy.RenderGroupFormat(j);
    PROP((bool)Call(NAME(geometry, MeshFormat, nativeIsPackedEquivalent), e, One(formats[i]), One(formats[j])) == MeshFormat::IsPackedEquivalent(a, b), "packed-equivalent");
    PROP((bool)Call(NAME(geometry, MeshFormat, nativeIsUnpackedEquivalent), e, One(formats[i]), One(formats[j])) == MeshFormat::IsUnpackedEquivalent(a, b), "unpacked-equivalent");
  }
  if (c.Bool()) { Call(NAME(geometry, PartitionedMeshNative, free), e, One(p)); Gone(p); p = 0; }
  for (uint32_t i = 0; i < copy.RenderGroupCount(); ++i) for (size_t k = 0; k < held[i].size(); ++k) {
    CheckMesh(e, held[i][k], copy.RenderGroupMeshes(i)[k], c);
    Call(NAME(geometry, MeshNative, freeNative), e, One(held[i][k])), Gone(held[i][k]);
  }
  for (jlong f : formats) Call(NAME(geometry, MeshFormat, nativeFree), e, One(f)), Gone(f);
  if (p) Call(NAME(geometry, PartitionedMeshNative, free), e, One(p));
  if (c.Chance(1, 4)) {
    jlong n = Call(NAME(geometry, PartitionedMeshNative, alloc), e);
    PROP(n && reinterpret_cast<PartitionedMesh*>(n)->RenderGroupCount() == PartitionedMesh().RenderGroupCount(), "new-shape");
    Call(NAME(geometry, PartitionedMeshNative, free), e, One(n)), Gone(n);
    n = Call(NAME(geometry, MeshNative, allocNativeNewEmptyMesh), e);
    CheckMesh(e, n, Mesh(), c);
    Call(NAME(geometry, MeshNative, freeNative), e, One(n)), Gone(n);
  }
  Clean(e);
}
}  // namespace
