// The Java bridge of brushes, inputs, strokes and their rendering: what Java builds value by value is the native object
// with those values, what it reads back is what the native object holds, and whatever is refused leaves nothing behind.
#include <sanitizer/allocator_interface.h>

#include <array>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "engine/pbt.h"
#include "fake/fake_jni.h"
#include "harness/brushgen.h"
#include "harness/inputgen.h"
#include "harness/strokegen.h"
#include "harness/strokepic.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_family.h"
#include "ink/color/color.h"
#include "ink/geometry/mesh_format.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"

using namespace ink;
using pbt::Ctx;
using BB = BrushBehavior;
using BP = BrushPaint;
using EF = EasingFunction;
using Spec = skia_common_internal::MeshSpecificationData;

#define F2 jfloat, jfloat
#define F4 F2, F2
#define J(module, cls, ret, name, ...) JNIEXPORT ret JNICALL Java_androidx_ink_##module##_##cls##_##name(JNIEnv*, jobject __VA_OPT__(,) __VA_ARGS__)
#define N(cls, ret, name, ...) J(brush, BrushBehavior_00024##cls, ret, name __VA_OPT__(,) __VA_ARGS__)
extern "C" {
J(brush, BrushPaint, jlong, nativeCreateBrushPaint, jint);
J(brush, BrushPaint, void, nativeAppendTextureLayer, jlong, jlong);
J(brush, BrushPaint, void, nativeFreeBrushPaint, jlong);
J(brush, BrushPaint_00024TextureLayer, jlong, nativeCreateTextureLayer, jstring, F4, F2, jint, jint, jint, jint, jint, jint);
J(brush, BrushPaint_00024TextureLayer, void, nativeFreeTextureLayer, jlong);
J(brush, BrushCoat, jlong, nativeCreateBrushCoat, jlongArray, jlong);
J(brush, BrushCoat, void, nativeFreeBrushCoat, jlong);
J(brush, BrushFamily, jlong, nativeCreateBrushFamily, jlongArray, jstring, jboolean);
J(brush, BrushFamily, void, nativeFreeBrushFamily, jlong);
J(brush, Brush, jlong, nativeCreateBrush, jlong, F4, jint, F2);
J(brush, Brush, void, nativeFreeBrush, jlong);
J(brush, BrushTip, jlong, nativeCreateBrushTip, F4, F4, jlong, jint);
J(brush, BrushTip, void, nativeAppendBehavior, jlong, jlong);
J(brush, BrushTip, void, nativeFreeBrushTip, jlong);
J(brush, BrushBehavior, jlong, nativeCreateEmptyBrushBehavior);
J(brush, BrushBehavior, jlong, nativeValidateOrDeleteAndThrow, jlong);
J(brush, BrushBehavior, void, nativeFreeBrushBehavior, jlong);
N(SourceNode, void, nativeAppendSourceNode, jlong, jint, F2, jint);
N(ConstantNode, void, nativeAppendConstantNode, jlong, jfloat);
N(FallbackFilterNode, void, nativeAppendFallbackFilterNode, jlong, jint);
N(ToolTypeFilterNode, void, nativeAppendToolTypeFilterNode, jlong, jboolean, jboolean, jboolean, jboolean);
N(DampingNode, void, nativeAppendDampingNode, jlong, jint, jfloat);
N(ResponseNode, void, nativeAppendResponseNodePredefined, jlong, jint);
N(ResponseNode, void, nativeAppendResponseNodeCubicBezier, jlong, F4);
N(ResponseNode, void, nativeAppendResponseNodeSteps, jlong, jint, jint);
N(ResponseNode, void, nativeAppendResponseNodeLinear, jlong, jfloatArray);
N(BinaryOpNode, void, nativeAppendBinaryOpNode, jlong, jint);
N(InterpolationNode, void, nativeAppendInterpolationNode, jlong, jint);
N(TargetNode, void, nativeAppendTargetNode, jlong, jint, F2);
J(strokes, StrokeInputBatchNative, jlong, createNativePeer);
J(strokes, StrokeInputBatchNative, void, freeNativePeer, jlong);
J(strokes, StrokeInputBatchNative, jint, getSize, jlong);
J(strokes, StrokeInputBatchNative, void, populate, jlong, jint, jobject, jclass);
J(strokes, StrokeInputBatchNative, jlong, getDurationMillis, jlong);
J(strokes, StrokeInputBatchNative, jint, getToolType, jlong);
J(strokes, StrokeInputBatchNative, jfloat, getStrokeUnitLengthCm, jlong);
J(strokes, StrokeInputBatchNative, jboolean, hasStrokeUnitLength, jlong);
J(strokes, StrokeInputBatchNative, jboolean, hasPressure, jlong);
J(strokes, StrokeInputBatchNative, jboolean, hasTilt, jlong);
J(strokes, StrokeInputBatchNative, jboolean, hasOrientation, jlong);
J(strokes, MutableStrokeInputBatchNative, jstring, appendSingle, jlong, jint, F2, jlong, F4);
J(strokes, MutableStrokeInputBatchNative, jstring, appendBatch, jlong, jlong);
J(strokes, MutableStrokeInputBatchNative, void, clear, jlong);
J(strokes, MutableStrokeInputBatchNative, jlong, copy, jlong);
J(strokes, InProgressStroke, jlong, nativeCreateInProgressStroke);
J(strokes, InProgressStroke, void, nativeFreeInProgressStroke, jlong);
J(strokes, InProgressStroke, void, nativeClear, jlong);
J(strokes, InProgressStroke, void, nativeStart, jlong, jlong);
J(strokes, InProgressStroke, jstring, nativeEnqueueInputs, jlong, jlong, jlong);
J(strokes, InProgressStroke, jstring, nativeUpdateShape, jlong, jlong);
J(strokes, InProgressStroke, void, nativeFinishInput, jlong);
J(strokes, InProgressStroke, jboolean, nativeIsInputFinished, jlong);
J(strokes, InProgressStroke, jboolean, nativeNeedsUpdate, jlong);
J(strokes, InProgressStroke, jlong, nativeCopyToStroke, jlong);
J(strokes, InProgressStroke, jint, nativeInputCount, jlong);
J(strokes, InProgressStroke, jint, nativeRealInputCount, jlong);
J(strokes, InProgressStroke, jint, nativePredictedInputCount, jlong);
J(strokes, InProgressStroke, jint, nativeFillInputs, jlong, jlong, jint, jint);
J(strokes, InProgressStroke, void, nativeGetAndOverwriteInput, jlong, jobject, jint, jclass);
J(strokes, InProgressStroke, jint, nativeBrushCoatCount, jlong);
J(strokes, InProgressStroke, void, nativeGetMeshBounds, jlong, jint, jobject);
J(strokes, InProgressStroke, void, nativeFillUpdatedRegion, jlong, jobject);
J(strokes, InProgressStroke, void, nativeResetUpdatedRegion, jlong);
J(strokes, InProgressStroke, jint, nativeGetOutlineCount, jlong, jint);
J(strokes, InProgressStroke, jint, nativeGetOutlineVertexCount, jlong, jint, jint);
J(strokes, InProgressStroke, void, nativeFillOutlinePosition, jlong, jint, jint, jint, jobject);
J(strokes, InProgressStroke, jint, nativeGetMeshPartitionCount, jlong, jint);
J(strokes, InProgressStroke, jint, nativeGetVertexCount, jlong, jint, jint);
J(strokes, InProgressStroke, jobject, nativeGetRawVertexData, jlong, jint, jint);
J(strokes, InProgressStroke, jobject, nativeGetRawTriangleIndexData, jlong, jint, jint);
J(strokes, InProgressStroke, jint, nativeGetTriangleIndexStride, jlong, jint);
J(strokes, InProgressStroke, jlong, nativeAllocMeshFormatCopy, jlong, jint, jint);
J(strokes, StrokeJni, jlong, createWithBrushAndInputs, jlong, jlong);
J(strokes, StrokeJni, jlong, createWithBrushInputsAndShape, jlong, jlong, jlong);
J(strokes, StrokeJni, jlong, allocShallowCopyOfInputs, jlong);
J(strokes, StrokeJni, jlong, allocShallowCopyOfShape, jlong);
J(strokes, StrokeJni, void, free, jlong);
J(rendering_android_canvas_internal, CanvasMeshRenderer, void, fillSkiaMeshSpecData, jlong, jboolean, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jintArray, jintArray, jobjectArray, jobjectArray, jobjectArray);
J(rendering_android_canvas_internal, CanvasMeshRenderer, jboolean, nativeIsMeshFormatRenderable, jlong, jboolean);
}
#define B_(cls, name) Java_androidx_ink_brush_##cls##_##name
#define N_(cls, name) Java_androidx_ink_brush_BrushBehavior_00024##cls##_##name
#define S_(cls, name) Java_androidx_ink_strokes_##cls##_##name
#define R_(name) Java_androidx_ink_rendering_1android_1canvas_1internal_CanvasMeshRenderer_##name
#undef R_
#define R_(name) Java_androidx_ink_rendering_android_canvas_internal_CanvasMeshRenderer_##name

namespace {
// Blocks of one size handed out while watching and not given back yet.
size_t g_size = 0;
std::set<const volatile void*>* g_live = nullptr;
bool g_busy = false;
void OnMalloc(const volatile void* p, size_t n) {
  if (!g_live || g_busy || n != g_size) return;
  g_busy = true, g_live->insert(p), g_busy = false;
}
void OnFree(const volatile void* p) {
  if (!g_live || g_busy) return;
  g_busy = true, g_live->erase(p), g_busy = false;
}
struct Watch {
  std::set<const volatile void*> live;
  explicit Watch(size_t n) {
    static int on = __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree);
    (void)on;
    g_size = n, g_live = &live;
  }
  size_t Stop() { g_live = nullptr; return live.size(); }
  ~Watch() { g_live = nullptr; }
};

// What a refused call leaves behind of the size of the object it was to make: it is made again with a Java side that is
// dropped afterwards, so that only what native code keeps counts.
template <typename Fn> void NothingStays(fake::Env& e, size_t size, const char* what, Fn again);

const char* kToolType = "androidx/ink/brush/InputToolType";
const char* kStrokeInput = "androidx/ink/strokes/StrokeInput";
const char* kMutableVec = "androidx/ink/geometry/MutableVec";
const char* kAccumulator = "androidx/ink/geometry/BoxAccumulator";
void Declare(fake::Env& e) {
  for (const char* n : {"java/lang/IllegalStateException", "java/lang/IllegalArgumentException", "java/util/NoSuchElementException", "java/lang/IndexOutOfBoundsException", "java/lang/UnsupportedOperationException"})
    e.DefineClass(n, "java/lang/RuntimeException");
  e.members[kToolType] = {"!from(I)Landroidx/ink/brush/InputToolType;", "valueI"};
  e.members[kStrokeInput] = {"update(FFJLandroidx/ink/brush/InputToolType;FFFF)V", "getToolType()Landroidx/ink/brush/InputToolType;", "getX()F", "getY()F", "getElapsedTimeMillis()J", "getStrokeUnitLengthCm()F", "getTiltRadians()F", "getOrientationRadians()F", "getPressure()F"};
  e.members[kMutableVec] = {"setX(F)V", "setY(F)V"};
  e.members[kAccumulator] = {"reset()Landroidx/ink/geometry/BoxAccumulator;", "overwriteFrom(FFFF)Landroidx/ink/geometry/BoxAccumulator;"};
  for (const char* n : {kToolType, kStrokeInput, kMutableVec, kAccumulator}) e.DefineClass(n);
}
void Clean(fake::Env& e) {
  PROP(e.errors.empty(), "jni-protocol", e.errors.front());
  PROP(!e.pending, "exception", e.PendingObj()->text);
  PROP(e.Balanced(), "held", "strings, arrays or references are still held");
}
// What was refused raises the exception for its status, and only then.
const char* ClassOf(absl::StatusCode k) {
  switch (k) {
    case absl::StatusCode::kInvalidArgument: return "java/lang/IllegalArgumentException";
    case absl::StatusCode::kNotFound: return "java/util/NoSuchElementException";
    case absl::StatusCode::kOutOfRange: return "java/lang/IndexOutOfBoundsException";
    case absl::StatusCode::kUnimplemented: return "java/lang/UnsupportedOperationException";
    default: return "java/lang/IllegalStateException";
  }
}
bool Took(fake::Env& e, const absl::Status& want, const char* what) {
  PROP(e.errors.empty(), "jni-protocol", e.errors.front());
  PROP(e.Balanced(), "held", what);
  if (want.ok()) {
    PROP(!e.pending, what, "refused: ", e.PendingObj()->text);
    return true;
  }
  PROP(e.pending, what, "no exception for ", want.ToString());
  PROP(e.PendingObj()->cls == ClassOf(want.code()), what, e.PendingObj()->cls, " for ", want.ToString());
  PROP(e.PendingObj()->text.find(std::string(want.message())) != std::string::npos, what, e.PendingObj()->text, " for ", want.ToString());
  e.pending = nullptr;
  return false;
}
template <typename Fn> void NothingStays(fake::Env& e, size_t size, const char* what, Fn again) {
  Watch w(size);
  {
    fake::Env t;
    Declare(t);
    again(t);
  }
  size_t left = w.Stop();
  fake::Env::Current() = &e;
  PROP(left == 0, "leak", "a refused ", what, " stays behind");
}
void Gone(jlong p) { PROP(!__sanitizer_get_ownership(reinterpret_cast<void*>(p)), "not-freed"); }
template <typename T> T& At(jlong p) {
  PROP(p != 0 && p != -1, "no-object");
  return *reinterpret_cast<T*>(p);
}
#define CALL(fn, ...) fn(&e.env, nullptr __VA_OPT__(,) __VA_ARGS__)
jlongArray Longs(fake::Env& e, const std::vector<jlong>& v) {
  fake::Obj* o = e.New("[J");
  o->longs = v;
  return e.Local<jlongArray>(o);
}

void Append(fake::Env& e, jlong p, const BB::Node& n) {
  switch (n.index()) {
    case 0: { auto& s = std::get<0>(n); CALL(N_(SourceNode, nativeAppendSourceNode), p, (jint)s.source, s.source_value_range[0], s.source_value_range[1], (jint)s.source_out_of_range_behavior); break; }
    case 1: CALL(N_(ConstantNode, nativeAppendConstantNode), p, std::get<1>(n).value); break;
    case 2: CALL(N_(FallbackFilterNode, nativeAppendFallbackFilterNode), p, (jint)std::get<2>(n).is_fallback_for); break;
    case 3: { auto t = std::get<3>(n).enabled_tool_types; CALL(N_(ToolTypeFilterNode, nativeAppendToolTypeFilterNode), p, t.mouse, t.touch, t.stylus, t.unknown); break; }
    case 4: CALL(N_(DampingNode, nativeAppendDampingNode), p, (jint)std::get<4>(n).damping_source, std::get<4>(n).damping_gap); break;
    case 5: {
      auto& q = std::get<5>(n).response_curve.parameters;
      if (auto* a = std::get_if<EF::Predefined>(&q)) CALL(N_(ResponseNode, nativeAppendResponseNodePredefined), p, (jint)*a);
      else if (auto* b = std::get_if<EF::CubicBezier>(&q)) CALL(N_(ResponseNode, nativeAppendResponseNodeCubicBezier), p, b->x1, b->y1, b->x2, b->y2);
      else if (auto* s = std::get_if<EF::Steps>(&q)) CALL(N_(ResponseNode, nativeAppendResponseNodeSteps), p, s->step_count, (jint)s->step_position);
      else {
        fake::Obj* o = e.New("[F");
        for (Point x : std::get<EF::Linear>(q).points) o->floats.push_back(x.x), o->floats.push_back(x.y);
        auto before = o->floats;
        CALL(N_(ResponseNode, nativeAppendResponseNodeLinear), p, e.Local<jfloatArray>(o));
        PROP(before == o->floats || std::memcmp(before.data(), o->floats.data(), before.size() * 4) == 0, "array-kept");
      }
      break;
    }
    case 6: CALL(N_(BinaryOpNode, nativeAppendBinaryOpNode), p, (jint)std::get<6>(n).operation); break;
    case 7: CALL(N_(InterpolationNode, nativeAppendInterpolationNode), p, (jint)std::get<7>(n).interpolation); break;
    default: { auto& t = std::get<8>(n); CALL(N_(TargetNode, nativeAppendTargetNode), p, (jint)t.target, t.target_modifier_range[0], t.target_modifier_range[1]); break; }
  }
}
// Everything Java still holds, freed in some order.
struct Held {
  fake::Env& e;
  struct One { jlong p; int kind; };
  std::vector<One> v;
  void Add(jlong p, int kind) { v.push_back({p, kind}); }
  void Free(size_t k) {
    One x = v[k];
    v.erase(v.begin() + k);
    switch (x.kind) {
      case 0: CALL(B_(BrushBehavior, nativeFreeBrushBehavior), x.p); break;
      case 1: CALL(B_(BrushTip, nativeFreeBrushTip), x.p); break;
      case 2: CALL(B_(BrushPaint, nativeFreeBrushPaint), x.p); break;
      case 3: CALL(B_(BrushPaint_00024TextureLayer, nativeFreeTextureLayer), x.p); break;
      case 4: CALL(B_(BrushCoat, nativeFreeBrushCoat), x.p); break;
      case 5: CALL(B_(BrushFamily, nativeFreeBrushFamily), x.p); break;
      default: CALL(B_(Brush, nativeFreeBrush), x.p); break;
    }
    Gone(x.p);
  }
};
// Java hands over parts, then is free to drop them.
void Thin(Ctx& c, Held& h) {
  if (c.Chance(1, 2)) while (!h.v.empty() && c.Chance(2, 3)) h.Free(c.Choice(h.v.size() - 1));
}
}  // namespace

PBT(Brushes, 4, "a whole brush with at least one behavior or texture was built") {
  fake::Env e;
  Declare(e);
  Held h{e};
  bg::Gen g{c, c.Chance(1, 2) ? 0u : 60u};
  bool rich = false;
  std::vector<BrushCoat> coats;
  std::vector<jlong> coat_ptrs;
  int n = c.Len(0, 2);
  for (int k = 0; k < n; ++k) {
    std::vector<BrushTip> tips;
    std::vector<jlong> tip_ptrs;
    int nt = c.Chance(1, 10) ? c.Int(0, 3) : 1;
    for (int i = 0; i < nt; ++i) {
      BrushTip t = g.Tip();
      auto behaviors = std::move(t.behaviors);
      t.behaviors.clear();
      jlong ms = c.Chance(1, 2) ? 0 : c.Int(0, 100000);
      if (g.Odd()) ms = -c.Int(1, 1000);
      t.particle_gap_duration = Duration32::Millis(ms);
      c.Note("tip ", pbt::Show(t), " with ", behaviors.size(), " behaviors");
      auto make = [&](fake::Env& e) { return CALL(B_(BrushTip, nativeCreateBrushTip), t.scale.x, t.scale.y, t.corner_rounding, t.slant.ValueInRadians(), t.pinch, t.rotation.ValueInRadians(), t.opacity_multiplier, t.particle_gap_distance_scale, ms, (jint)behaviors.size()); };
      jlong p = make(e);
      bool ok = bg::Ok(t);
      if (!Took(e, brush_internal::ValidateBrushTip(t), "tip")) {
        PROP(!ok, "tip-refused");
        NothingStays(e, sizeof(BrushTip), "tip", make);
        continue;
      }
      PROP(ok, "tip-accepted");
      for (auto& b : behaviors) {
        c.Note("behavior ", pbt::Show(b));
        jlong q = CALL(B_(BrushBehavior, nativeCreateEmptyBrushBehavior));
        for (auto& x : b.nodes) Append(e, q, x);
        Clean(e);
        jlong r = CALL(B_(BrushBehavior, nativeValidateOrDeleteAndThrow), q);
        if (!Took(e, brush_internal::ValidateBrushBehavior(b), "behavior")) {
          PROP(!bg::Ok(b), "behavior-refused");
          Gone(q);
          continue;
        }
        PROP(bg::Ok(b), "behavior-accepted");
        PROP(r == q, "behavior-pointer");
        PROP(At<BB>(q) == b, "behavior", pbt::Show(At<BB>(q)));
        CALL(B_(BrushTip, nativeAppendBehavior), p, q);
        t.behaviors.push_back(b);
        rich |= !b.nodes.empty();
        h.Add(q, 0);
      }
      Thin(c, h);
      PROP(At<BrushTip>(p) == t, "tip", pbt::Show(At<BrushTip>(p)), " expected ", pbt::Show(t));
      tips.push_back(t), tip_ptrs.push_back(p);
    }
    BP paint = g.Paint();
    auto layers = std::move(paint.texture_layers);
    paint.texture_layers.clear();
    jlong pp = CALL(B_(BrushPaint, nativeCreateBrushPaint), (jint)layers.size());
    for (auto& l : layers) {
      l.size_jitter = {0, 0}, l.offset_jitter = {0, 0}, l.rotation_jitter = Angle(), l.keyframes.clear();
      std::string uri = absl::StrCat(l.color_texture_uri);
      if (g.Odd()) uri = c.PickOf<const char*>({"", "x", "ink://ink/texture:t", "/texture:", "/brush-family:x"});
      c.Note("layer ", uri, " ", pbt::Show(l));
      auto parsed = Uri::Parse(uri);
      absl::Status want = parsed.status();
      if (parsed.ok()) l.color_texture_uri = *parsed, want = brush_internal::ValidateBrushPaintTextureLayer(l);
      e.unterminated = false;
      auto make = [&](fake::Env& e) { return CALL(B_(BrushPaint_00024TextureLayer, nativeCreateTextureLayer), e.String(uri), l.size.x, l.size.y, l.offset.x, l.offset.y, l.rotation.ValueInRadians(), l.opacity, (jint)l.size_unit, (jint)l.origin, (jint)l.mapping, (jint)l.wrap_x, (jint)l.wrap_y, (jint)l.blend_mode); };
      jlong q = make(e);
      bool ok = parsed.ok() && bg::Ok(l);
      if (!Took(e, want, "layer")) {
        PROP(!ok, "layer-refused");
        NothingStays(e, sizeof(BP::TextureLayer), "layer", make);
        continue;
      }
      PROP(ok, "layer-accepted");
      PROP(At<BP::TextureLayer>(q) == l, "layer", pbt::Show(At<BP::TextureLayer>(q)), " expected ", pbt::Show(l));
      CALL(B_(BrushPaint, nativeAppendTextureLayer), pp, q);
      h.Add(q, 3);
      paint.texture_layers.push_back(l);
      Thin(c, h);
      if (!Took(e, brush_internal::ValidateBrushPaint(paint), "paint")) {
        PROP(!bg::Ok(paint), "paint-refused");
        CALL(B_(BrushPaint, nativeFreeBrushPaint), pp);
        Gone(pp);
        pp = CALL(B_(BrushPaint, nativeCreateBrushPaint), 0);
        paint = BP();
        break;
      }
      PROP(bg::Ok(paint), "paint-accepted");
      rich = true;
    }
    PROP(At<BP>(pp) == paint, "paint", pbt::Show(At<BP>(pp)), " expected ", pbt::Show(paint));
    jlong coat = CALL(B_(BrushCoat, nativeCreateBrushCoat), Longs(e, tip_ptrs), pp);
    Clean(e);
    for (jlong p : tip_ptrs) h.Add(p, 1);
    h.Add(pp, 2);
    Thin(c, h);
    PROP(At<BrushCoat>(coat).tips == tips && At<BrushCoat>(coat).paint == paint, "coat");
    coats.push_back({tips, paint}), coat_ptrs.push_back(coat);
  }
  std::string uri = c.Chance(1, 2) ? "" : c.PickOf<const char*>({"/brush-family:marker", "/brush-family:my-pen:3", "ink://ink/brush-family:x:1", "/texture:t", "pen", "/brush-family:"});
  bool v2 = c.Bool();
  BrushFamily::InputModel model = v2 ? BrushFamily::InputModel(BrushFamily::SpringModelV2()) : BrushFamily::InputModel(BrushFamily::SpringModelV1());
  c.Note("family ", uri, v2 ? " v2" : " v1", " with ", coats.size(), " coats");
  auto want = BrushFamily::Create(coats, uri, model);
  jlong family;
  {
    auto make = [&](fake::Env& e) { return CALL(B_(BrushFamily, nativeCreateBrushFamily), Longs(e, coat_ptrs), e.String(uri), v2); };
    family = make(e);
    if (!want.ok()) {
      Took(e, want.status(), "family");
      NothingStays(e, sizeof(BrushFamily), "family", make);
      make(e);
    }
    for (jlong p : coat_ptrs) h.Add(p, 4);
    Thin(c, h);
    if (Took(e, want.status(), "family")) {
      auto& f = At<BrushFamily>(family);
      PROP(f.GetUri() == want->GetUri(), "family-uri");
      PROP(f.GetInputModel().index() == model.index(), "family-model");
      PROP(f.GetCoats().size() == coats.size(), "family-coats");
      for (size_t k = 0; k < coats.size(); ++k) PROP(f.GetCoats()[k].tips == coats[k].tips && f.GetCoats()[k].paint == coats[k].paint, "family-coat", k);
    } else {
      family = 0;
    }
  }
  if (family) {
    std::array<float, 4> k;
    for (float& x : k) x = c.Chance(1, 3) ? c.PickOf<float>({0, 1, 1.5f, -0.5f}) : c.UniformF(0, 1);
    k[3] = std::clamp(k[3], 0.f, 1.f);
    int space = c.Choice(1);
    float size = g.Odd() ? c.PickOf<float>({0, -1, bg::kInf, bg::kNan}) : c.UniformF(0.5f, 50), eps = g.Odd() ? c.PickOf<float>({0, -1, bg::kInf, bg::kNan, size * 2}) : c.UniformF(0.01f, 0.5f);
    Color color = Color::FromFloat(k[0], k[1], k[2], k[3], Color::Format::kGammaEncoded, space ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb);
    c.Note("brush ", pbt::Show(color), " size ", size, " epsilon ", eps);
    auto b = Brush::Create(*want, color, size, eps);
    auto make = [&](fake::Env& e) { return CALL(B_(Brush, nativeCreateBrush), family, k[0], k[1], k[2], k[3], (jint)space, size, eps); };
    jlong p = make(e);
    if (!b.ok()) {
      Took(e, b.status(), "brush");
      NothingStays(e, sizeof(Brush), "brush", make);
      make(e);
    }
    h.Add(family, 5);
    Thin(c, h);
    if (Took(e, b.status(), "brush")) {
      PROP(sg::SameBrush(At<Brush>(p), *b), "brush", pbt::Show(At<Brush>(p)), " expected ", pbt::Show(*b));
      h.Add(p, 6);
      c.NonTrivial(rich);
    }
  }
  while (!h.v.empty()) h.Free(h.v.size() - 1);
  Clean(e);
}

namespace {
// The numbers of an input as Java holds them.
std::vector<double> Numbers(const StrokeInput& i) {
  return {i.position.x, i.position.y, (double)(jlong)i.elapsed_time.ToMillis(), i.stroke_unit_length.ToCentimeters(), i.pressure, i.tilt.ValueInRadians(), i.orientation.ValueInRadians()};
}
bool SameNumbers(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k) if (a[k] != b[k] && !(std::isnan(a[k]) && std::isnan(b[k]))) return false;
  return true;
}
const int kTool[4] = {0, 1, 2, 3};  // unknown, mouse, touch, stylus, as Java numbers them
int JTool(StrokeInput::ToolType t) {
  switch (t) {
    case StrokeInput::ToolType::kMouse: return 1;
    case StrokeInput::ToolType::kTouch: return 2;
    case StrokeInput::ToolType::kStylus: return 3;
    default: return 0;
  }
}
void Overwritten(fake::Obj* o, const StrokeInput& want) {
  PROP(o->call_count["update"] == 1, "input-updated");
  auto a = o->calls["update"];
  auto w = Numbers(want);
  std::string s, t;
  for (double d : a) s += pbt::Cat(" ", d);
  for (double d : w) t += pbt::Cat(" ", d);
  PROP(SameNumbers(a, w), "input", "got", s, " expected", t);
  PROP(o->obj_args.size() == 1 && o->obj_args[0] && o->obj_args[0]->cls == kToolType && o->obj_args[0]->made_by.rfind("from(I)", 0) == 0, "tool-type-made");
  PROP(o->obj_args[0]->ctor == std::vector<double>{(double)JTool(want.tool_type)}, "tool-type", o->obj_args[0]->ctor[0]);
}
StrokeInput Input(Ctx& c, ig::Gen& g, const ig::Gen::Format& f, jlong& ms) {
  if (c.Chance(5, 6)) ms += c.PickOf<int>({1, 4, 8, 16, 37, 1000});
  else if (c.Chance(1, 6)) ms -= 5;
  StrokeInput i = g.One(f, 0);
  i.elapsed_time = Duration32::Millis(ms);
  return i;
}
void CheckBatch(Ctx& c, fake::Env& e, jlong p, const StrokeInputBatch& w) {
  PROP(CALL(S_(StrokeInputBatchNative, getSize), p) == (jint)w.Size(), "size");
  if (w.Size()) {
    uint32_t k = c.Choice(w.Size() - 1);
    fake::Obj* o = e.New(kStrokeInput);
    CALL(S_(StrokeInputBatchNative, populate), p, (jint)k, e.Local(o), e.Class(kToolType));
    Overwritten(o, w.Get(k));
  }
  PROP(CALL(S_(StrokeInputBatchNative, getDurationMillis), p) == (jlong)w.GetDuration().ToMillis(), "duration");
  PROP(CALL(S_(StrokeInputBatchNative, getToolType), p) == JTool(w.GetToolType()), "batch-tool");
  auto u = w.GetStrokeUnitLength();
  PROP(CALL(S_(StrokeInputBatchNative, getStrokeUnitLengthCm), p) == (u ? u->ToCentimeters() : 0.f), "batch-unit");
  PROP((bool)CALL(S_(StrokeInputBatchNative, hasStrokeUnitLength), p) == w.HasStrokeUnitLength(), "has-unit");
  PROP((bool)CALL(S_(StrokeInputBatchNative, hasPressure), p) == w.HasPressure(), "has-pressure");
  PROP((bool)CALL(S_(StrokeInputBatchNative, hasTilt), p) == w.HasTilt(), "has-tilt");
  PROP((bool)CALL(S_(StrokeInputBatchNative, hasOrientation), p) == w.HasOrientation(), "has-orientation");
}
void Answer(fake::Env& e, jstring s, const absl::Status& want, const char* what) {
  Clean(e);
  if (want.ok()) PROP(!s, what, "refused: ", e.Peek(s)->text);
  else PROP(s && e.Peek(s)->text.find(std::string(want.message())) != std::string::npos, what, s ? e.Peek(s)->text : "accepted", " expected ", want.ToString());
}
}  // namespace

PBT(Inputs, 4, "a batch with several inputs was copied, appended or changed after a refusal") {
  fake::Env e;
  Declare(e);
  ig::Gen g{c, c.Chance(1, 2) ? 0u : 12u};
  auto f = g.Fmt();
  struct B { jlong p, ms; StrokeInputBatch model; };
  std::vector<B> bs;
  auto fresh = [&] { bs.push_back({CALL(S_(StrokeInputBatchNative, createNativePeer)), c.Int(0, 500), {}}); };
  fresh();
  int n = c.Len(1, 20);
  for (int s = 0; s < n; ++s) {
    B& b = bs[c.Choice(bs.size() - 1)];
    switch (c.Weighted({8, 2, 1, 2, 1, 1})) {
      case 0: {
        if (c.Chance(1, 12)) f = g.Fmt();
        StrokeInput i = Input(c, g, f, b.ms);
        // What Java can say: whole milliseconds and the four kinds of tools.
        if ((int)i.tool_type < 0 || (int)i.tool_type > 3) i.tool_type = f.tool;
        c.Note("append ", pbt::Show(i.position), " at ", b.ms, " ms tool ", JTool(i.tool_type));
        absl::Status want = b.model.Append(i);
        Answer(e, CALL(S_(MutableStrokeInputBatchNative, appendSingle), b.p, kTool[JTool(i.tool_type)], i.position.x, i.position.y, b.ms, i.stroke_unit_length.ToCentimeters(), i.pressure, i.tilt.ValueInRadians(), i.orientation.ValueInRadians()), want, "append");
        if (want.ok() && c.Chance(1, 3)) {
          // and the other way: an input object of Java's
          fake::Obj* o = e.New(kStrokeInput);
          o->nums = {{"getX", i.position.x}, {"getY", i.position.y}, {"getElapsedTimeMillis", (double)b.ms}, {"getStrokeUnitLengthCm", i.stroke_unit_length.ToCentimeters()}, {"getTiltRadians", i.tilt.ValueInRadians()}, {"getOrientationRadians", i.orientation.ValueInRadians()}, {"getPressure", i.pressure}};
          fake::Obj* t = e.New(kToolType);
          t->nums = {{"value", (double)JTool(i.tool_type)}};
          o->members["getToolType"] = t;
          StrokeInput back = JObjectToStrokeInput(&e.env, e.Local(o));
          PROP(ig::Same(back, i), "from-java");
        }
        break;
      }
      case 1: {
        B& from = bs[c.Choice(bs.size() - 1)];
        c.Note("append batch of ", from.model.Size());
        absl::Status want = b.model.Append(StrokeInputBatch(from.model));
        if (&from == &b) {
          // appending a batch to itself is refused unless it is empty
          Answer(e, CALL(S_(MutableStrokeInputBatchNative, appendBatch), b.p, b.p), want, "append-batch");
        } else {
          Answer(e, CALL(S_(MutableStrokeInputBatchNative, appendBatch), b.p, from.p), want, "append-batch");
        }
        if (want.ok()) b.ms = std::max(b.ms, from.ms);
        c.NonTrivial(want.ok() && from.model.Size() > 1);
        break;
      }
      case 2: c.Note("clear"); CALL(S_(MutableStrokeInputBatchNative, clear), b.p); b.model.Clear(); b.ms = 0; break;
      case 3: {
        if (bs.size() >= 4) break;
        c.Note("copy");
        jlong p = CALL(S_(MutableStrokeInputBatchNative, copy), b.p);
        B copy{p, b.ms, b.model};
        c.NonTrivial(b.model.Size() > 1);
        bs.push_back(copy);
        break;
      }
      case 4: if (bs.size() < 4) fresh(); break;
      default:
        if (bs.size() > 1) {
          size_t k = c.Choice(bs.size() - 1);
          c.Note("free");
          CALL(S_(StrokeInputBatchNative, freeNativePeer), bs[k].p);
          Gone(bs[k].p);
          bs.erase(bs.begin() + k);
        }
    }
    for (B& x : bs) CheckBatch(c, e, x.p, x.model);
  }
  for (B& x : bs) {
    auto& got = At<StrokeInputBatch>(x.p);
    for (size_t k = 0; k < x.model.Size(); ++k) PROP(ig::Same(got.Get(k), x.model.Get(k)), "held-input", k);
    CALL(S_(StrokeInputBatchNative, freeNativePeer), x.p);
    Gone(x.p);
  }
  Clean(e);
}

namespace {
void Accumulated(fake::Obj* o, const Envelope& want, const char* what) {
  PROP(o->call_count["reset"] + o->call_count["overwriteFrom"] == 1, what, "calls");
  if (want.IsEmpty()) { PROP(o->call_count["reset"] == 1, what, "not reset"); return; }
  Rect r = *want.AsRect();
  PROP(o->call_count["overwriteFrom"] == 1 && SameNumbers(o->calls["overwriteFrom"], {r.XMin(), r.YMin(), r.XMax(), r.YMax()}), what);
}
bool Big(const MutableMesh& m) { return m.VertexCount() > 65536; }
void CheckLive(Ctx& c, fake::Env& e, jlong p, const InProgressStroke& w) {
  PROP(CALL(S_(InProgressStroke, nativeBrushCoatCount), p) == (jint)w.BrushCoatCount(), "coat-count");
  PROP(CALL(S_(InProgressStroke, nativeInputCount), p) == (jint)w.InputCount(), "input-count");
  PROP(CALL(S_(InProgressStroke, nativeRealInputCount), p) == (jint)w.RealInputCount(), "real-count");
  PROP(CALL(S_(InProgressStroke, nativePredictedInputCount), p) == (jint)w.PredictedInputCount(), "predicted-count");
  PROP((bool)CALL(S_(InProgressStroke, nativeIsInputFinished), p) == w.InputsAreFinished(), "finished");
  PROP((bool)CALL(S_(InProgressStroke, nativeNeedsUpdate), p) == w.NeedsUpdate(), "needs-update");
  fake::Obj* o = e.New(kAccumulator);
  CALL(S_(InProgressStroke, nativeFillUpdatedRegion), p, e.Local(o));
  Accumulated(o, w.GetUpdatedRegion(), "updated-region");
  if (w.InputCount()) {
    uint32_t k = c.Choice(w.InputCount() - 1);
    fake::Obj* i = e.New(kStrokeInput);
    CALL(S_(InProgressStroke, nativeGetAndOverwriteInput), p, e.Local(i), (jint)k, e.Class(kToolType));
    Overwritten(i, w.GetInputs().Get(k));
    jlong q = CALL(S_(StrokeInputBatchNative, createNativePeer));
    uint32_t from = c.Choice(w.InputCount()), to = from + c.Choice(w.InputCount() - from);
    PROP(CALL(S_(InProgressStroke, nativeFillInputs), p, q, (jint)from, (jint)to) == (jint)w.InputCount(), "fill-count");
    auto& got = At<StrokeInputBatch>(q);
    PROP(got.Size() == to - from, "fill-size", got.Size(), " for ", from, "..", to);
    for (uint32_t j = from; j < to; ++j) PROP(ig::Same(got.Get(j - from), w.GetInputs().Get(j)), "filled", j);
    CALL(S_(StrokeInputBatchNative, freeNativePeer), q);
  }
  std::vector<std::vector<uint16_t>> want(w.BrushCoatCount());
  std::vector<fake::Obj*> buf(w.BrushCoatCount());
  for (uint32_t k = 0; k < w.BrushCoatCount(); ++k) {
    const MutableMesh& m = w.GetMesh(k);
    PROP(CALL(S_(InProgressStroke, nativeGetMeshPartitionCount), p, (jint)k) == 1, "partitions");
    PROP(CALL(S_(InProgressStroke, nativeGetVertexCount), p, (jint)k, 0) == (jint)m.VertexCount(), "vertex-count");
    PROP(CALL(S_(InProgressStroke, nativeGetTriangleIndexStride), p, 0) == 2, "index-stride");
    fake::Obj* b = e.New(kAccumulator);
    CALL(S_(InProgressStroke, nativeGetMeshBounds), p, (jint)k, e.Local(b));
    Accumulated(b, w.GetMeshBounds(k), "mesh-bounds");
    fake::Obj* raw = e.Peek(CALL(S_(InProgressStroke, nativeGetRawVertexData), p, (jint)k, 0));
    auto bytes = m.RawVertexData();
    PROP(bytes.empty() ? !raw || raw->capacity == 0 : raw && raw->capacity == (jlong)bytes.size() && std::memcmp(raw->buffer, bytes.data(), bytes.size()) == 0, "vertex-data", k);
    for (uint32_t t = 0; t < m.TriangleCount(); ++t) {
      auto x = m.TriangleIndices(t);
      if (x[0] > 65535 || x[1] > 65535 || x[2] > 65535) break;
      for (uint32_t v : x) want[k].push_back(v);
    }
    buf[k] = e.Peek(CALL(S_(InProgressStroke, nativeGetRawTriangleIndexData), p, (jint)k, 0));
    jlong f = CALL(S_(InProgressStroke, nativeAllocMeshFormatCopy), p, (jint)k, 0);
    PROP(At<MeshFormat>(f) == m.Format(), "format");
    delete reinterpret_cast<MeshFormat*>(f);
    auto outs = w.GetCoatOutlines(k);
    PROP(CALL(S_(InProgressStroke, nativeGetOutlineCount), p, (jint)k) == (jint)outs.size(), "outline-count");
    for (size_t i = 0; i < outs.size(); ++i) {
      PROP(CALL(S_(InProgressStroke, nativeGetOutlineVertexCount), p, (jint)k, (jint)i) == (jint)outs[i].size(), "outline-length");
      if (outs[i].empty()) continue;
      uint32_t v = c.Choice(outs[i].size() - 1);
      fake::Obj* at = e.New(kMutableVec);
      CALL(S_(InProgressStroke, nativeFillOutlinePosition), p, (jint)k, (jint)i, (jint)v, e.Local(at));
      Point pt = m.VertexPosition(outs[i][v]);
      PROP(at->call_count["setX"] == 1 && at->call_count["setY"] == 1 && at->calls["setX"][0] == pt.x && at->calls["setY"][0] == pt.y, "outline-position", k, " ", i, " ", v);
    }
  }
  // The buffers of all coats are good until the stroke changes.
  for (size_t k = 0; k < buf.size(); ++k)
    PROP(want[k].empty() ? !buf[k] || buf[k]->capacity == 0 : buf[k] && buf[k]->capacity == (jlong)want[k].size() * 2 && std::memcmp(buf[k]->buffer, want[k].data(), want[k].size() * 2) == 0, "index-data", k, " expected ", want[k].size(), " got ", buf[k] ? buf[k]->capacity / 2 : -1);
  Clean(e);
}
void CheckStroke(Ctx& c, fake::Env& e, jlong p, const Stroke& want) {
  auto a = sg::Of(At<Stroke>(p)), b = sg::Of(want);
  PROP(sg::Same(a, b), "stroke", a.text, " expected ", b.text);
  jlong i = CALL(S_(StrokeJni, allocShallowCopyOfInputs), p), s = CALL(S_(StrokeJni, allocShallowCopyOfShape), p);
  jlong twice = CALL(S_(StrokeJni, createWithBrushInputsAndShape), Brush(want.GetBrush()).CoatCount() == want.GetBrush().CoatCount() ? (jlong)&want.GetBrush() : 0, i, s);
  CALL(S_(StrokeJni, free), p);
  Gone(p);
  PROP(absl::StrCat(At<StrokeInputBatch>(i)) == absl::StrCat(want.GetInputs()), "inputs-copy");
  PROP(sg::SameShape(sg::Of(Stroke(want.GetBrush(), want.GetInputs(), At<PartitionedMesh>(s))), b), "shape-copy");
  PROP(sg::Same(sg::Of(At<Stroke>(twice)), b), "stroke-with-shape");
  CALL(S_(StrokeJni, free), twice);
  Gone(twice);
  delete reinterpret_cast<PartitionedMesh*>(s);
  CALL(S_(StrokeInputBatchNative, freeNativePeer), i);
  Clean(e);
}
}  // namespace

PBT(Strokes, 2, "a stroke with triangles was drawn in several updates") {
  fake::Env e;
  Declare(e);
  sg::Gen g{c};
  sg::Want want{.max_coats = 2, .behaviors = 1, .textures = false};
  jlong p = CALL(S_(InProgressStroke, nativeCreateInProgressStroke));
  InProgressStroke model;
  sg::Gen::Pen pen;
  ig::Gen::Format f{};
  float size = 1;
  jlong ms = 0;
  int updates = 0;
  auto start = [&] {
    Brush b = g.OneBrush(want);
    c.Note("start ", pbt::Show(b));
    f = ig::Gen{c, 0}.Fmt();
    size = b.GetSize(), pen = {}, ms = 0, updates = 0;
    model.Start(b);
    CALL(S_(InProgressStroke, nativeStart), p, (jlong)&b);
  };
  CheckLive(c, e, p, model);
  start();
  int n = c.Len(1, 12);
  for (int s = 0; s < n; ++s) {
    switch (c.Weighted({8, 1, 2, 1, 1, 1})) {
      case 0: {
        auto real = g.Path(pen, f, size, c.Int(0, 5));
        auto past = pen;
        auto predicted = g.Path(past, f, size, c.Chance(1, 2) ? 0 : c.Int(1, 3));
        if (c.Chance(1, 10) && !real.empty()) std::swap(real, predicted);
        for (auto* v : {&real, &predicted}) for (auto& i : *v) i.elapsed_time = Duration32::Millis(std::round(i.elapsed_time.ToMillis()));
        auto r = StrokeInputBatch::Create(real), q = StrokeInputBatch::Create(predicted);
        if (!r.ok() || !q.ok()) throw pbt::Discard{};
        c.Note("enqueue ", real.size(), " + ", predicted.size());
        absl::Status want = model.EnqueueInputs(*r, *q);
        Answer(e, CALL(S_(InProgressStroke, nativeEnqueueInputs), p, (jlong)&*r, (jlong)&*q), want, "enqueue");
        jlong now = std::max<jlong>(ms, (jlong)std::round(pen.t * 1000)) + c.PickOf<int>({0, 1, 20});
        if (c.Chance(1, 15)) now = -1;
        c.Note("update at ", now, " ms");
        want = model.UpdateShape(Duration32::Millis(now));
        Answer(e, CALL(S_(InProgressStroke, nativeUpdateShape), p, now), want, "update");
        if (now >= 0) ms = now;
        ++updates;
        break;
      }
      case 1: c.Note("finish"); model.FinishInputs(); CALL(S_(InProgressStroke, nativeFinishInput), p); break;
      case 2: c.Note("reset region"); model.ResetUpdatedRegion(); CALL(S_(InProgressStroke, nativeResetUpdatedRegion), p); break;
      case 3: {
        if (!model.GetBrush()) break;
        c.Note("copy");
        CheckStroke(c, e, CALL(S_(InProgressStroke, nativeCopyToStroke), p), model.CopyToStroke());
        break;
      }
      case 4: c.Note("clear"); model.Clear(); CALL(S_(InProgressStroke, nativeClear), p); CheckLive(c, e, p, model); start(); break;
      default: {
        jlong now = ms + c.PickOf<int>({5, 100});
        c.Note("tick to ", now);
        absl::Status want = model.UpdateShape(Duration32::Millis(now));
        Answer(e, CALL(S_(InProgressStroke, nativeUpdateShape), p, now), want, "update");
        ms = now;
      }
    }
    CheckLive(c, e, p, model);
    for (uint32_t k = 0; k < model.BrushCoatCount(); ++k) c.NonTrivial(updates > 1 && model.GetMesh(k).TriangleCount() > 0);
  }
  if (model.GetBrush() && c.Chance(1, 2)) {
    Brush b = *model.GetBrush();
    StrokeInputBatch i = model.GetInputs();
    c.Note("stroke from inputs");
    CheckStroke(c, e, CALL(S_(StrokeJni, createWithBrushAndInputs), (jlong)&b, (jlong)&i), Stroke(b, i));
  }
  CALL(S_(InProgressStroke, nativeFreeInProgressStroke), p);
  Gone(p);
  Clean(e);
}

PBT(Specs, 3, "the format can be drawn") {
  fake::Env e;
  Declare(e);
  using T = MeshFormat::AttributeType;
  using I = MeshFormat::AttributeId;
  const MeshFormat full = strokes_internal::StrokeVertex::FullMeshFormat();
  std::vector<std::pair<T, I>> a;
  for (auto& x : full.Attributes()) a.push_back({x.type, x.id});
  int kind = c.Choice(3);
  bool packed = c.Bool();
  if (kind > 0) {
    // What a finished stroke is packed as, with some optional attributes left out.
    for (auto& x : a) {
      int n = MeshFormat::ComponentCount(x.first);
      if (n == 1) x.first = T::kFloat1PackedIn1UnsignedByte;
      if (n == 2) x.first = c.PickOf({T::kFloat2PackedIn3UnsignedBytes_XY12, T::kFloat2PackedIn4UnsignedBytes_X12_Y20, T::kFloat2PackedIn1Float});
      if (n == 3) x.first = T::kFloat3PackedIn4UnsignedBytes_XYZ10;
    }
    if (kind > 1) for (size_t k = a.size(); k-- > 1;) if (c.Chance(1, 5)) a.erase(a.begin() + k);
    if (kind > 2) for (auto& x : a) if (c.Chance(1, 12)) x.first = c.PickOf({T::kFloat1Unpacked, T::kFloat2Unpacked, T::kFloat3Unpacked, T::kFloat4Unpacked});
    if (kind > 2 && c.Chance(1, 6)) std::swap(a[c.Choice(a.size() - 1)], a[c.Choice(a.size() - 1)]);
  } else if (c.Chance(1, 4)) {
    a.pop_back();
  }
  auto f = MeshFormat::Create(a, full.GetIndexFormat());
  if (!f.ok()) throw pbt::Discard{};
  c.Note("format ", absl::StrCat(*f), packed ? " packed" : " in progress");
  auto want = packed ? Spec::CreateForStroke(*f) : Spec::CreateForInProgressStroke(*f);
  c.NonTrivial(want.ok());
  PROP((bool)CALL(R_(nativeIsMeshFormatRenderable), (jlong)&*f, packed) == want.ok(), "renderable");
  Clean(e);
  auto ints = [&](int n) { fake::Obj* o = e.New("[I"); o->ints.assign(n, 0); return o; };
  auto strings = [&](int n) { fake::Obj* o = e.New("[Ljava/lang/String;"); o->objs.assign(n, nullptr); return o; };
  fake::Obj *at = ints(8), *ao = ints(8), *an = strings(8), *st = ints(1), *vt = ints(6), *vn = strings(6), *ui = ints(7), *uu = ints(7), *un = strings(7), *vs = strings(1), *fs = strings(1);
  auto IA = [&](fake::Obj* o) { return e.Local<jintArray>(o); };
  auto OA = [&](fake::Obj* o) { return e.Local<jobjectArray>(o); };
  CALL(R_(fillSkiaMeshSpecData), (jlong)&*f, packed, IA(at), IA(ao), OA(an), IA(st), IA(vt), OA(vn), IA(ui), IA(uu), OA(un), OA(vs), OA(fs));
  if (!Took(e, want.status(), "spec")) return;
  auto name = [&](fake::Obj* o, int k, absl::string_view s, const char* what) { PROP(o->objs[k] && o->objs[k]->text == s, what, k, " expected ", std::string(s)); };
  PROP(want->attributes.Size() <= 8 && want->varyings.Size() <= 6 && want->uniforms.Size() <= 7, "limits");
  for (int k = 0; k < 8; ++k) {
    if (k < want->attributes.Size()) {
      auto& x = want->attributes[k];
      PROP(at->ints[k] == (jint)x.type && ao->ints[k] == x.offset, "attribute", k);
      name(an, k, x.name, "attribute-name");
    } else {
      PROP(at->ints[k] == -1 && !an->objs[k], "attribute-beyond", k);
      PROP(ao->ints[k] == -1 || ao->ints[k] == 0, "offset-beyond", k, " ", ao->ints[k]);
    }
  }
  PROP(st->ints[0] == want->vertex_stride, "stride");
  for (int k = 0; k < 6; ++k) {
    if (k < want->varyings.Size()) {
      PROP(vt->ints[k] == (jint)want->varyings[k].type, "varying", k);
      name(vn, k, want->varyings[k].name, "varying-name");
    } else {
      PROP(vt->ints[k] == -1 && !vn->objs[k], "varying-beyond", k);
    }
  }
  for (int k = 0; k < 7; ++k) {
    if (k < want->uniforms.Size()) {
      auto& u = want->uniforms[k];
      PROP(ui->ints[k] == (jint)u.id, "uniform", k);
      PROP(uu->ints[k] == (u.unpacking_attribute_index ? *u.unpacking_attribute_index : -1), "uniform-unpacking", k);
      name(un, k, Spec::GetUniformName(u.id), "uniform-name");
    } else {
      PROP(ui->ints[k] == -1 && uu->ints[k] == -1 && !un->objs[k], "uniform-beyond", k);
    }
  }
  name(vs, 0, want->vertex_shader_source, "vertex-shader");
  name(fs, 0, want->fragment_shader_source, "fragment-shader");
  Clean(e);
}

// Indices that need more than 16 bits end the data Java gets, at a whole triangle.
PBT(Huge, 0, "the stroke has more vertices than 16 bits can number") {
  fake::Env e;
  Declare(e);
  sg::Gen g{c};
  BrushTip tip;
  auto family = BrushFamily::Create(std::vector<BrushCoat>{{.tips = {tip}}}, "", BrushFamily::SpringModelV2{});
  if (!family.ok()) throw pbt::Discard{};
  Brush b = *Brush::Create(*family, Color(), 4, 0.004f);
  jlong p = CALL(S_(InProgressStroke, nativeCreateInProgressStroke));
  InProgressStroke model;
  model.Start(b);
  CALL(S_(InProgressStroke, nativeStart), p, (jlong)&b);
  int n = c.Int(4000, 4300);
  float turn = c.UniformF(0.8f, 1.f);
  c.Note(n, " inputs");
  StrokeInputBatch in, none;
  Point at{0, 0};
  for (int k = 0; k < n; ++k) {
    at = at + Vec{30 * std::cos(turn * k) + 3, 30 * std::sin(turn * k)};
    if (!in.Append({.position = at, .elapsed_time = Duration32::Millis(20 * k)}).ok()) throw pbt::Discard{};
  }
  absl::Status want = model.EnqueueInputs(in, none);
  Answer(e, CALL(S_(InProgressStroke, nativeEnqueueInputs), p, (jlong)&in, (jlong)&none), want, "enqueue");
  want = model.UpdateShape(Duration32::Millis(20 * n));
  Answer(e, CALL(S_(InProgressStroke, nativeUpdateShape), p, (jlong)20 * n), want, "update");
  c.Note(model.GetMesh(0).VertexCount(), " vertices");
  c.NonTrivial(Big(model.GetMesh(0)));
  CheckLive(c, e, p, model);
  CALL(S_(InProgressStroke, nativeFreeInProgressStroke), p);
}
