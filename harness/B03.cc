// Brush parts as values: equality, hashing and text see every field.
#include <functional>
#include <string>
#include <vector>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/brushgen.h"

using namespace bg;
using pbt::Ctx;

namespace {
template <typename T> void Compare(Ctx& c, const T& a, const T& copy, const T& other, const char* field, bool text_differs) {
  c.Note("changed ", field, ": ", absl::StrCat(a), " -> ", absl::StrCat(other));
  PROP(a == copy && !(a != copy) && copy == a, "reflexive", "a copy must be equal: ", absl::StrCat(a));
  PROP(absl::StrCat(a) == absl::StrCat(copy), "text-same", "a copy must have the same text");
  PROP(!(a == other) && a != other && other != a && !(other == a), "distinguish", "a change of ", field, " must make it unequal: ", absl::StrCat(a), " vs ", absl::StrCat(other));
  if (text_differs) PROP(absl::StrCat(a) != absl::StrCat(other), "text", "a change of ", field, " must show in the text: ", absl::StrCat(a));
}
// A different value of a field, and whether the text of the two differs.
bool Change(Ctx& c, float& v) {
  float o = v;
  if (c.Chance(1, 4)) v = std::nextafter(o, c.Bool() ? kInf : -kInf);
  else v = std::fabs(o) < 1e6 ? o + 1 : o / 2;
  if (v == o) throw pbt::Discard{};
  return absl::StrCat(v) != absl::StrCat(o);
}
bool Change(Ctx& c, Vec& v) { return Change(c, c.Bool() ? v.x : v.y); }
bool Change(Ctx& c, Angle& a) {
  float v = a.ValueInRadians();
  Change(c, v);
  Angle b = Angle::Radians(v);
  bool t = absl::StrCat(a) != absl::StrCat(b);
  a = b;
  return t;
}
bool Change(Ctx& c, Duration32& d) {
  float v = d.ToSeconds();
  Change(c, v);
  Duration32 b = Duration32::Seconds(v);
  bool t = absl::StrCat(d) != absl::StrCat(b);
  d = b;
  return t;
}
template <typename E> bool ChangeEnum(Ctx& c, E& e, int n) {
  int k = c.Int(0, n - 2);
  if (k >= (int)e) ++k;
  e = (E)k;
  return true;
}
template <typename T> bool ChangeOpt(Ctx& c, std::optional<T>& o, T base) {
  if (o && c.Bool()) return Change(c, *o);
  if (o) o.reset(); else o = base;
  return true;
}
template <typename T> bool Resize(Ctx& c, std::vector<T>& v, const T& fresh) {
  if (!v.empty() && c.Bool()) v.pop_back(); else v.push_back(fresh);
  return true;
}
bool ChangeEasing(Ctx& c, EF& e, const char*& f) {
  Gen g{c, 0, c.Bool()};
  if (c.Chance(1, 5)) {
    size_t k = e.parameters.index();
    f = "kind of curve";
    switch ((k + 1 + c.Choice(2)) % 4) {
      case 0: e.parameters = (EF::Predefined)c.Int(0, 6); break;
      case 1: e.parameters = g.Bezier(); break;
      case 2: e.parameters = g.Linear(); break;
      default: e.parameters = g.Steps(); break;
    }
    return true;
  }
  switch (e.parameters.index()) {
    case 0: f = "predefined"; return ChangeEnum(c, std::get<0>(e.parameters), 7);
    case 1: {
      auto& b = std::get<1>(e.parameters);
      float* fs[] = {&b.x1, &b.y1, &b.x2, &b.y2};
      static const char* const n[] = {"x1", "y1", "x2", "y2"};
      int k = c.Int(0, 3);
      f = n[k];
      return Change(c, *fs[k]);
    }
    case 2: {
      auto& l = std::get<2>(e.parameters);
      if (l.points.empty() || c.Chance(1, 3)) { f = "number of points"; return Resize(c, l.points, ink::Point{1, 0.5f}); }
      auto& p = l.points[c.Choice(l.points.size() - 1)];
      f = "point";
      return Change(c, c.Bool() ? p.x : p.y);
    }
    default: {
      auto& s = std::get<3>(e.parameters);
      if (c.Bool()) { f = "step position"; return ChangeEnum(c, s.step_position, 4); }
      f = "step count";
      s.step_count += 1;
      return true;
    }
  }
}
bool ChangeNode(Ctx& c, BB::Node& n, const char*& f) {
  if (c.Chance(1, 8)) {
    f = "kind of node";
    if (n.index() == 1) n = BB::BinaryOpNode{BB::BinaryOp::kSum}; else n = BB::ConstantNode{2};
    return true;
  }
  switch (n.index()) {
    case 0: {
      auto& s = std::get<0>(n);
      switch (c.Choice(2)) {
        case 0: f = "source"; return ChangeEnum(c, s.source, kSources);
        case 1: f = "out of range"; return ChangeEnum(c, s.source_out_of_range_behavior, 3);
        default: f = "source range"; return Change(c, s.source_value_range[c.Choice(1)]);
      }
    }
    case 1: f = "constant"; return Change(c, std::get<1>(n).value);
    case 2: f = "fallback"; return ChangeEnum(c, std::get<2>(n).is_fallback_for, 4);
    case 3: {
      auto& t = std::get<3>(n).enabled_tool_types;
      bool* b[] = {&t.unknown, &t.mouse, &t.touch, &t.stylus};
      bool& x = *b[c.Choice(3)];
      x = !x;
      f = "tool types";
      return true;
    }
    case 4: {
      auto& d = std::get<4>(n);
      if (c.Bool()) { f = "damping source"; return ChangeEnum(c, d.damping_source, 3); }
      f = "damping gap";
      return Change(c, d.damping_gap);
    }
    case 5: return ChangeEasing(c, std::get<5>(n).response_curve, f);
    case 6: f = "operation"; return ChangeEnum(c, std::get<6>(n).operation, 2);
    case 7: f = "interpolation"; return ChangeEnum(c, std::get<7>(n).interpolation, 2);
    default: {
      auto& t = std::get<8>(n);
      if (c.Bool()) { f = "target"; return ChangeEnum(c, t.target, kTargets); }
      f = "target range";
      return Change(c, t.target_modifier_range[c.Choice(1)]);
    }
  }
}
bool ChangeBehavior(Ctx& c, BB& b, const char*& f) {
  Gen g{c};
  if (b.nodes.empty() || c.Chance(1, 4)) { f = "number of nodes"; return Resize<BB::Node>(c, b.nodes, BB::ConstantNode{1}); }
  return ChangeNode(c, b.nodes[c.Choice(b.nodes.size() - 1)], f);
}
bool ChangeTip(Ctx& c, BrushTip& t, const char*& f) {
  switch (c.Choice(9)) {
    case 0: f = "scale"; return Change(c, t.scale);
    case 1: f = "corner rounding"; return Change(c, t.corner_rounding);
    case 2: f = "slant"; return Change(c, t.slant);
    case 3: f = "pinch"; return Change(c, t.pinch);
    case 4: f = "rotation"; return Change(c, t.rotation);
    case 5: f = "opacity"; return Change(c, t.opacity_multiplier);
    case 6: f = "gap distance"; return Change(c, t.particle_gap_distance_scale);
    case 7: f = "gap duration"; return Change(c, t.particle_gap_duration);
    case 8: f = "number of behaviors"; return Resize(c, t.behaviors, BB{.nodes = {BB::ConstantNode{1}}});
    default:
      if (t.behaviors.empty()) throw pbt::Discard{};
      return ChangeBehavior(c, t.behaviors[c.Choice(t.behaviors.size() - 1)], f);
  }
}
bool ChangeKeyframe(Ctx& c, BP::TextureKeyframe& k, const char*& f) {
  switch (c.Choice(4)) {
    case 0: f = "progress"; return Change(c, k.progress);
    case 1: f = "frame size"; return ChangeOpt(c, k.size, Vec{1, 2});
    case 2: f = "frame offset"; return ChangeOpt(c, k.offset, Vec{0, 0});
    case 3: f = "frame rotation"; return ChangeOpt(c, k.rotation, Angle());
    default: f = "frame opacity"; return ChangeOpt(c, k.opacity, 0.f);
  }
}
bool ChangeLayer(Ctx& c, BP::TextureLayer& l, const char*& f) {
  switch (c.Choice(15)) {
    case 0: {
      Uri o = l.color_texture_uri;
      l.color_texture_uri = *Uri::Parse("/texture:tz");
      if (l.color_texture_uri == o) l.color_texture_uri = *Uri::Parse("/texture:tz:9");
      f = "uri";
      return true;
    }
    case 1: f = "mapping"; return ChangeEnum(c, l.mapping, 2);
    case 2: f = "origin"; return ChangeEnum(c, l.origin, 3);
    case 3: f = "size unit"; return ChangeEnum(c, l.size_unit, 3);
    case 4: f = "wrap x"; return ChangeEnum(c, l.wrap_x, 3);
    case 5: f = "wrap y"; return ChangeEnum(c, l.wrap_y, 3);
    case 6: f = "size"; return Change(c, l.size);
    case 7: f = "offset"; return Change(c, l.offset);
    case 8: f = "rotation"; return Change(c, l.rotation);
    case 9: f = "size jitter"; return Change(c, l.size_jitter);
    case 10: f = "offset jitter"; return Change(c, l.offset_jitter);
    case 11: f = "rotation jitter"; return Change(c, l.rotation_jitter);
    case 12: f = "opacity"; return Change(c, l.opacity);
    case 13: f = "number of keyframes"; return Resize(c, l.keyframes, BP::TextureKeyframe{.progress = 0.5f});
    case 14: f = "blend mode"; return ChangeEnum(c, l.blend_mode, 12);
    default:
      if (l.keyframes.empty()) throw pbt::Discard{};
      return ChangeKeyframe(c, l.keyframes[c.Choice(l.keyframes.size() - 1)], f);
  }
}
template <typename T> void SameHash(const T& a, const T& b) {
  PROP(absl::Hash<T>()(a) == absl::Hash<T>()(b), "hash", "equal values must hash alike: ", absl::StrCat(a));
}
// -0 and +0 are equal, so they must hash alike too.
void FlipZero(float& v) { if (v == 0) v = -v; }
}  // namespace

PBT(easing, 3, "the curve has parameters") {
  Gen g{c, 0, c.Bool()};
  EF a = g.Easing(), copy = a, other = a;
  const char* f = "";
  bool t = ChangeEasing(c, other, f);
  c.NonTrivial(a.parameters.index() > 0);
  Compare(c, a, copy, other, f, t);
}
PBT(node, 4, "the node has a field") {
  Gen g{c, 0, c.Bool()};
  BB::Node a = g.AnyNode(), copy = a, other = a;
  const char* f = "";
  bool t = ChangeNode(c, other, f);
  c.NonTrivial();
  Compare(c, a, copy, other, f, t);
}
PBT(behavior, 4, "the list has at least two nodes") {
  Gen g{c, 0, c.Bool()};
  BB a = g.Behavior(), copy = a, other = a;
  const char* f = "";
  bool t = ChangeBehavior(c, other, f);
  c.NonTrivial(a.nodes.size() >= 2);
  Compare(c, a, copy, other, f, t);
}
PBT(tip, 4, "a field of the tip was changed") {
  Gen g{c, 0, c.Bool()};
  BrushTip a = g.Tip(), copy = a, other = a;
  const char* f = "";
  bool t = ChangeTip(c, other, f);
  c.NonTrivial();
  Compare(c, a, copy, other, f, t);
}
PBT(layer, 6, "a field of the layer was changed") {
  Gen g{c, 0, c.Bool()};
  auto a = g.Layer((BP::TextureMapping)c.Int(0, 1)), copy = a, other = a;
  const char* f = "";
  bool t = ChangeLayer(c, other, f);
  c.NonTrivial();
  Compare(c, a, copy, other, f, t);
  FlipZero(copy.offset.x), FlipZero(copy.offset_jitter.y), FlipZero(copy.opacity), FlipZero(copy.size_jitter.x);
  PROP(a == copy, "zero", "the sign of a zero is not a difference");
  SameHash(a, copy);
  BrushPaint p, q;
  int n = c.Len(0, 2);
  for (int k = 0; k < n; ++k) p.texture_layers.push_back(g.Layer(a.mapping));
  q = p;
  size_t at = c.Choice(p.texture_layers.size());
  p.texture_layers.insert(p.texture_layers.begin() + at, a), q.texture_layers.insert(q.texture_layers.begin() + at, copy);
  PROP(p == q, "paint-equal", "paints with equal layers are equal");
  SameHash(p, q);
  q.texture_layers[at] = other;
  PROP(p != q && !(p == q), "paint-distinguish", "paints with different layers differ (", f, ")");
  q = p, q.texture_layers.pop_back();
  PROP(p != q, "paint-length", "paints of different length differ");
}
PBT(keyframe, 4, "a field of the frame was changed") {
  Gen g{c, 0, c.Bool()};
  auto a = g.Keyframe(), copy = a, other = a;
  const char* f = "";
  bool t = ChangeKeyframe(c, other, f);
  c.NonTrivial();
  Compare(c, a, copy, other, f, t);
  SameHash(a, copy);
}
PBT(names, 2, "an enumerator has its published name") {
  auto show = [&](auto e, const std::string& want) { PROP(absl::StrCat(e) == want, "name", "expected ", want, " got ", absl::StrCat(e)); };
  auto pick = [&](auto zero, std::initializer_list<const char*> names, const char* type) {
    using E = decltype(zero);
    int n = (int)names.size(), k = c.Int(0, n);
    if (k == n) { int v = c.Int(n, 100); show((E)v, absl::StrCat(type, "(", v, ")")); }
    else show((E)k, names.begin()[k]);
    c.Note(type, " ", k);
  };
  c.NonTrivial();
  switch (c.Choice(15)) {
    case 0: { int k = c.Int(0, kSources - 1); show((BB::Source)k, kSourceNames[k]); break; }
    case 1: { int k = c.Int(0, kTargets - 1); show((BB::Target)k, kTargetNames[k]); break; }
    case 2: pick(BB::OutOfRange{}, {"kClamp", "kRepeat", "kMirror"}, "OutOfRange"); break;
    case 3: pick(BB::OptionalInputProperty{}, {"kPressure", "kTilt", "kOrientation", "kTiltXAndY"}, "OptionalInputProperty"); break;
    case 4: pick(BB::BinaryOp{}, {"kProduct", "kSum"}, "BinaryOp"); break;
    case 5: pick(BB::DampingSource{}, {"kDistanceInCentimeters", "kDistanceInMultiplesOfBrushSize", "kTimeInSeconds"}, "DampingSource"); break;
    case 6: pick(BB::Interpolation{}, {"kLerp", "kInverseLerp"}, "Interpolation"); break;
    case 7: pick(EF::Predefined{}, {"kLinear", "kEase", "kEaseIn", "kEaseOut", "kEaseInOut", "kStepStart", "kStepEnd"}, "Predefined"); break;
    case 8: pick(EF::StepPosition{}, {"kJumpEnd", "kJumpStart", "kJumpBoth", "kJumpNone"}, "StepPosition"); break;
    case 9: pick(BP::TextureMapping{}, {"kTiling", "kWinding"}, "TextureMapping"); break;
    case 10: pick(BP::TextureOrigin{}, {"kStrokeSpaceOrigin", "kFirstStrokeInput", "kLastStrokeInput"}, "TextureOrigin"); break;
    case 11: pick(BP::TextureSizeUnit{}, {"kBrushSize", "kStrokeSize", "kStrokeCoordinates"}, "TextureSizeUnit"); break;
    case 12: pick(BP::TextureWrap{}, {"kRepeat", "kMirror", "kClamp"}, "TextureWrap"); break;
    case 13: pick(BP::BlendMode{}, {"kModulate", "kDstIn", "kDstOut", "kSrcAtop", "kSrcIn", "kSrcOver", "kDstOver", "kSrc", "kDst", "kSrcOut", "kDstAtop", "kXor"}, "BlendMode"); break;
    case 14: { int v = c.Int(kSources, 100); show((BB::Source)v, absl::StrCat("Source(", v, ")")); v = c.Int(kTargets, 100); show((BB::Target)v, absl::StrCat("Target(", v, ")")); break; }
    default: {
      int m = c.Int(0, 15);
      BB::EnabledToolTypes t = {(m & 1) != 0, (m & 2) != 0, (m & 4) != 0, (m & 8) != 0};
      std::string want = m == 15 ? "all" : m == 0 ? "none" : "";
      static const char* const names[] = {"unknown", "mouse", "touch", "stylus"};
      if (want.empty()) for (int k = 0; k < 4; ++k) if (m >> k & 1) want += (want.empty() ? "" : "/") + std::string(names[k]);
      show(t, want);
      PROP(t.HasAnyTypes() == (m != 0) && t.HasAllTypes() == (m == 15), "tool-types", "tool types ", m);
    }
  }
}
