// What the vertices of a stroke carry for color and texture: the values of the tip state that made them.
#include <algorithm>
#include <array>
#include <cmath>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/strokegen.h"
#include "harness/hull.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_vertex.h"

using namespace sg;
using ink::Angle;
using ink::strokes_internal::BrushTipExtruder;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::StrokeVertex;
using pbt::Ctx;
using BB = ink::BrushBehavior;

namespace {
struct Carried {
  float v[4];  // opacity, hue, saturation, luminosity
  Point uv;
};
Carried Of(const MutableMesh& m, uint32_t k) {
  auto a = StrokeVertex::GetFromMesh(m, k).non_position_attributes;
  return {{a.opacity_shift, a.hsl_shift[0], a.hsl_shift[1], a.hsl_shift[2]}, a.surface_uv};
}
Carried Of(const BrushTipState& s) { return {{s.opacity_multiplier - 1.f, s.hue_offset_in_full_turns, s.saturation_multiplier - 1.f, s.luminosity_shift}, {0, 0}}; }
std::string Show(const Carried& c) { return absl::StrCat("opacity ", c.v[0], " hue ", c.v[1], " saturation ", c.v[2], " luminosity ", c.v[3], " at (", c.uv.x, ", ", c.uv.y, ")"); }
// The place in the texture: the middle at the center of the tip, turned with it, from edge to edge across its width and height.
void Place(double x, double y, double w, double h, double turn, double out[2]) {
  double a = std::cos(turn) * x + std::sin(turn) * y, b = -std::sin(turn) * x + std::cos(turn) * y;
  out[0] = std::clamp(0.5 + (w > 0 ? a / w : 0), 0., 1.), out[1] = std::clamp(0.5 + (h > 0 ? b / h : 0), 0., 1.);
}
void Colors(Ctx& c, BrushTipState& s) {
  s.opacity_multiplier = c.Chance(1, 3) ? c.PickOf<float>({1, 0, 2}) : c.UniformF(0, 2);
  s.hue_offset_in_full_turns = c.Chance(1, 3) ? 0 : c.UniformF(0, 0.999f);
  s.saturation_multiplier = c.Chance(1, 3) ? c.PickOf<float>({1, 0, 2}) : c.UniformF(0, 2);
  s.luminosity_shift = c.Chance(1, 3) ? c.PickOf<float>({0, -1, 1}) : c.UniformF(-1, 1);
}
BrushTipState Shape(Ctx& c, float size) {
  BrushTipState s{};
  s.width = c.UniformF(0.2f, 1) * size;
  s.height = c.Bool() ? s.width : c.UniformF(0.2f, 1) * size;
  if (c.Chance(1, 12)) (c.Bool() ? s.width : s.height) = 0;
  s.percent_radius = c.Bool() ? c.PickOf<float>({1, 0, 0.5f}) : c.UniformF(0, 1);
  s.rotation = Angle::Radians(c.UniformF(-3.2f, 3.2f));
  if (c.Chance(1, 3)) s.slant = Angle::Radians(c.UniformF(-1, 1));
  if (c.Chance(1, 4)) s.pinch = c.UniformF(0, 1);
  Colors(c, s);
  return s;
}
std::string Show(const BrushTipState& s) {
  return absl::StrCat("tip at (", s.position.x, ", ", s.position.y, ") ", s.width, "x", s.height, " round ", s.percent_radius, " turn ", s.rotation.ValueInRadians(), " slant ", s.slant.ValueInRadians(), " pinch ", s.pinch, " ", Show(Of(s)));
}
bool SameShift(const Carried& a, const Carried& b) { return std::equal(a.v, a.v + 4, b.v); }

// Hands over states in a few updates; those still to come may be shown as provisional first.
void Feed(Ctx& c, BrushTipExtruder& x, const std::vector<BrushTipState>& all) {
  size_t done = 0;
  while (done < all.size()) {
    size_t f = c.Int(0, (int)(all.size() - done)), v = c.Chance(1, 2) ? c.Int(0, (int)(all.size() - done - f)) : 0;
    if (f + v == 0) f = 1;
    absl::Span<const BrushTipState> s(all);
    x.ExtendStroke(s.subspan(done, f), s.subspan(done + f, v));
    done += f;
    c.Note("updated with ", f, " final and ", v, " provisional states");
    if (done + v == all.size() && c.Bool()) break;  // ends on provisional ones
  }
}
}  // namespace

PBT(Separate, 4, "three or more separate shapes with different shifts") {
  float size = c.PickOf<float>({10, 1, 100}), eps = size * c.PickOf<float>({0.01f, 0.002f, 0.05f});
  bool uv = c.Chance(2, 3);
  int n = c.Len(1, 8);
  c.Note("epsilon ", eps, uv ? ", textured" : "");
  std::vector<BrushTipState> all, shown;
  for (int k = 0; k < n; ++k) {
    BrushTipState s = Shape(c, size);
    s.position = {(float)(4 * size * (k % 3)) + c.UniformF(-0.2f, 0.2f) * size, (float)(4 * size * (k / 3)) + c.UniformF(-0.2f, 0.2f) * size};
    c.Note(Show(s));
    if (s.width >= eps || s.height >= eps) shown.push_back(s);
    all.push_back(s);
    all.push_back(BrushTipState{.width = 0, .height = 0});
  }
  MutableMesh mesh(StrokeVertex::FullMeshFormat());
  BrushTipExtruder x;
  if (c.Chance(1, 3)) {  // used before for another stroke
    x.StartStroke(eps, !uv, mesh);
    BrushTipState s = Shape(c, size);
    x.ExtendStroke({s}, {s});
  }
  x.StartStroke(eps, uv, mesh);
  Feed(c, x, all);
  std::vector<int> vertices(shown.size());
  for (uint32_t k = 0; k < mesh.VertexCount(); ++k) {
    Point p = mesh.VertexPosition(k);
    size_t best = 0;
    auto far = [&](size_t i) { return (p - shown[i].position).MagnitudeSquared(); };
    for (size_t i = 1; i < shown.size(); ++i) if (far(i) < far(best)) best = i;
    PROP(best < shown.size(), "vertex-of-nothing", pbt::Show(p));
    ++vertices[best];
    const BrushTipState& s = shown[best];
    Carried got = Of(mesh, k), want = Of(s);
    PROP(SameShift(got, want), "shift", "vertex ", pbt::Show(p), " carries ", Show(got), ", its tip ", Show(want));
    if (!uv) {
      PROP((got.uv == Point{0, 0}), "place-without-texture", Show(got));
      continue;
    }
    double w[2];
    double dx = (double)p.x - s.position.x, dy = (double)p.y - s.position.y;
    Place(dx, dy, s.width, s.height, s.rotation.ValueInRadians(), w);
    double at = std::max({std::fabs(s.position.x), std::fabs(s.position.y), size});
    double tx = 1e-5 + (s.width > 0 ? 4e-7 * at / s.width : 0), ty = 1e-5 + (s.height > 0 ? 4e-7 * at / s.height : 0);
    PROP(std::fabs(got.uv.x - w[0]) <= tx && std::fabs(got.uv.y - w[1]) <= ty, "place", "vertex ", pbt::Show(p), " of ", Show(s), " is at (", got.uv.x, ", ", got.uv.y, ") of the texture, expected (", w[0], ", ", w[1], ")");
  }
  c.NonTrivial(std::count_if(vertices.begin(), vertices.end(), [](int v) { return v >= 3; }) >= 3);
}

PBT(Sweep, 4, "a part of three or more tips whose shifts differ") {
  float size = c.PickOf<float>({10, 1, 100}), eps = size * c.PickOf<float>({0.01f, 0.002f, 0.05f});
  int n = c.Len(1, 10);
  bool smooth = c.Chance(2, 3), same = c.Chance(1, 4);
  c.Note("epsilon ", eps, smooth ? ", smooth" : "", same ? ", same shifts" : "");
  BrushTipState s = Shape(c, size);
  s.width = std::max(s.width, 0.2f * size), s.height = std::max(s.height, 0.2f * size);
  double heading = c.Unit() * 6.2831853;
  std::vector<BrushTipState> all;
  bool differ = false;
  for (int k = 0; k < n; ++k) {
    if (k) {
      double step = size * c.PickOf<double>({0.3, 0.1, 0.6, 1.5});
      heading += smooth ? c.Uniform(-0.2, 0.2) : c.Uniform(-3.2, 3.2);
      s.position += Vec{(float)(step * std::cos(heading)), (float)(step * std::sin(heading))};
      if (!smooth) s.width *= c.UniformF(0.7f, 1.4f), s.height *= c.UniformF(0.7f, 1.4f), s.rotation += Angle::Radians(c.UniformF(-0.5f, 0.5f));
      if (!same) Colors(c, s), differ = true;
    }
    c.Note(Show(s));
    all.push_back(s);
  }
  MutableMesh mesh(StrokeVertex::FullMeshFormat());
  BrushTipExtruder x;
  x.StartStroke(eps, false, mesh);
  Feed(c, x, all);
  float lo[4], hi[4];
  for (int i = 0; i < 4; ++i) {
    lo[i] = hi[i] = Of(all[0]).v[i];
    for (auto& t : all) lo[i] = std::min(lo[i], Of(t).v[i]), hi[i] = std::max(hi[i], Of(t).v[i]);
  }
  int exact = 0;
  std::vector<bool> seen(all.size());
  for (uint32_t k = 0; k < mesh.VertexCount(); ++k) {
    Carried got = Of(mesh, k);
    // Where the outline is cut at a crossing the values are blended, sharp folds reach past the ends.
    for (int i = 0; i < 4; ++i) PROP(smooth || same ? got.v[i] >= lo[i] - 1e-5f && got.v[i] <= hi[i] + 1e-5f : got.v[i] >= -1 && got.v[i] <= 1, "out-of-range", "vertex ", k, " carries ", Show(got), ", tips have ", lo[i], " to ", hi[i]);
    PROP((got.uv == Point{0, 0}), "place", Show(got));
    bool any = false;
    for (size_t t = 0; t < all.size(); ++t) {
      if (!SameShift(got, Of(all[t]))) continue;
      any = true, seen[t] = true;
    }
    exact += any;
  }
  if (same && mesh.VertexCount()) PROP(exact == (int)mesh.VertexCount(), "same", "of ", mesh.VertexCount(), " vertices only ", exact, " carry the shift all tips have");
  if (smooth && mesh.VertexCount()) PROP(exact * 5 >= (int)mesh.VertexCount(), "mixed", "of ", mesh.VertexCount(), " vertices only ", exact, " carry the shift of a tip");
  // On a smooth path every vertex belongs to a tip whose outline it is on or near.
  if (smooth && !same) {
    int wrong = 0, total = 0;
    double worst = 0;
    for (uint32_t k = 0; k < mesh.VertexCount(); ++k) {
      Carried got = Of(mesh, k);
      Point p = mesh.VertexPosition(k);
      double best = INFINITY;
      for (auto& t : all) if (SameShift(got, Of(t))) best = std::min(best, std::hypot((double)p.x - t.position.x, (double)p.y - t.position.y));
      if (best == INFINITY) continue;
      ++total;
      // half of the diagonal of the unslanted box, widened by the slant
      double reach = std::hypot(s.width, s.height) / 2 * (1 + std::fabs(std::tan(s.slant.ValueInRadians()))) + eps;
      worst = std::max(worst, best / reach);
      wrong += best > reach * 1.001;
    }
    PROP(wrong * 10 <= total, "far", wrong, " of ", total, " vertices carry the shift of a tip they cannot belong to, ", worst, " times as far away as it reaches");
  }
  c.NonTrivial(differ && n >= 3 && mesh.VertexCount() >= 6);
}

PBT(Whole, 2, "drawn with a shift or a texture") {
  Gen g{c};
  float size = g.Size();
  BrushTip t;
  t.scale = {c.PickOf({1.f, 0.5f, 0.7f}), c.PickOf({1.f, 0.5f, 0.8f})};
  t.corner_rounding = c.PickOf({1.f, 0.f, 0.5f});
  t.rotation = Angle::Radians(c.PickOf({0.f, 0.5f, 1.5707964f, -2.f}));
  t.opacity_multiplier = c.PickOf({1.f, 0.5f, 0.f, 2.f});
  int gap = c.Choice(3);  // none, distance, duration, both
  if (gap & 1) t.particle_gap_distance_scale = c.PickOf({2.f, 0.5f, 1.f});
  if (gap & 2) t.particle_gap_duration = Duration32::Seconds(c.PickOf({0.01f, 0.02f}));
  float hue = 0, saturation = 1, luminosity = 0, opacity = t.opacity_multiplier;
  auto fixed = [&](BB::Target target, float value) { t.behaviors.push_back({{BB::ConstantNode{1.f}, BB::TargetNode{target, {value - 1.f, value}}}}); };
  if (c.Chance(1, 2)) hue = c.UniformF(-3, 7), fixed(BB::Target::kHueOffsetInRadians, hue);
  if (c.Chance(1, 2)) saturation = c.UniformF(-0.5f, 2.5f), fixed(BB::Target::kSaturationMultiplier, saturation);
  if (c.Chance(1, 2)) luminosity = c.UniformF(-1.5f, 1.5f), fixed(BB::Target::kLuminosity, luminosity);
  if (c.Chance(1, 2)) { float o = c.UniformF(-0.5f, 2.5f); opacity *= o, fixed(BB::Target::kOpacityMultiplier, o); }
  BrushCoat coat;
  coat.tips.push_back(t);
  int layers = c.Weighted({1, 3, 1});
  using P = ink::BrushPaint;
  bool winding = c.Chance(2, 3);
  for (int k = 0; k < layers; ++k)
    coat.paint.texture_layers.push_back({.color_texture_uri = *ink::Uri::Parse("/texture:paper"), .mapping = winding ? P::TextureMapping::kWinding : P::TextureMapping::kTiling, .size = {1, 1}});
  bool textured = gap != 0 && layers == 1 && coat.paint.texture_layers[0].mapping == P::TextureMapping::kWinding;
  // The coat in question is the first or the second; coats do not affect each other.
  std::vector<BrushCoat> coats{coat};
  BrushCoat other;
  other.tips.push_back(BrushTip{.scale = {1, 1}, .corner_rounding = 0.5f});
  int at = 0;
  if (c.Chance(1, 3)) { if (c.Bool()) coats.push_back(other); else coats.insert(coats.begin(), other), at = 1; }
  auto f = BrushFamily::Create(coats, "");
  PROP(f.ok(), "brush", f.status());
  auto brush = Brush::Create(*f, ink::Color::Blue(), size, size * 0.02f);
  PROP(brush.ok(), "brush", brush.status());
  c.Note("size ", size, " brush ", *brush);
  InProgressStroke s;
  if (c.Chance(1, 3)) {  // another stroke was drawn before
    Gen::Pen pen;
    s.Start(g.OneBrush({}));
    if (s.EnqueueInputs(Batch(g.Path(pen, ig::Gen{c}.Fmt(), size, 3)), {}).ok()) s.UpdateShape(Duration32::Seconds(1)).IgnoreError();
  }
  s.Start(*brush);
  Gen::Pen pen;
  auto fmt = ig::Gen{c}.Fmt();
  int updates = c.Int(1, 3);
  for (int k = 0; k < updates; ++k) {
    auto real = g.Path(pen, fmt, size, c.Len(1, 6), true);
    PROP(s.EnqueueInputs(Batch(real), {}).ok(), "enqueue");
    PROP(s.UpdateShape(Duration32::Seconds(pen.t)).ok(), "update");
    c.Note("inputs ", pbt::Show(real));
  }
  float want[4] = {std::clamp(opacity, 0.f, 2.f) - 1, 0, std::clamp(saturation, 0.f, 2.f) - 1, std::clamp(luminosity, -1.f, 1.f)};
  double turns = hue / 6.283185307179586;
  turns -= std::floor(turns);
  want[1] = (float)turns;
  for (int k = 0; k < (int)coats.size(); ++k) {
    const MutableMesh& m = s.GetMesh(k);
    Carried plain{{0, 0, 0, 0}, {0, 0}};
    for (uint32_t v = 0; v < m.VertexCount(); ++v) {
      Carried got = Of(m, v);
      if (k != at) {
        PROP(SameShift(got, plain) && got.uv == Point(0, 0), "other-coat", Show(got));
        continue;
      }
      for (int i = 0; i < 4; ++i) {
        float d = std::fabs(got.v[i] - want[i]);
        if (i == 1) d = std::min(d, std::fabs(1 - d));
        PROP(d <= 1e-5f, "shift", "component ", i, " of ", Show(got), ", expected ", want[i]);
      }
      if (!textured) PROP((got.uv == Point{0, 0}), "place-without-texture", Show(got));
    }
    if (k != at || !textured) continue;
    // One outline per particle: the texture is laid over each in the same way.
    double w = t.scale.x * size, h = t.scale.y * size, turn = t.rotation.ValueInRadians();
    for (auto o : s.GetCoatOutlines(k)) {
      if (o.size() < 3) continue;
      double x0 = INFINITY, x1 = -INFINITY, y0 = INFINITY, y1 = -INFINITY;
      for (uint32_t v : o) {
        Point p = m.VertexPosition(v);
        double a = std::cos(turn) * p.x + std::sin(turn) * p.y, b = -std::sin(turn) * p.x + std::cos(turn) * p.y;
        x0 = std::min(x0, a), x1 = std::max(x1, a), y0 = std::min(y0, b), y1 = std::max(y1, b);
      }
      for (uint32_t v : o) {
        Point p = m.VertexPosition(v);
        double a = std::cos(turn) * p.x + std::sin(turn) * p.y - (x0 + x1) / 2, b = -std::sin(turn) * p.x + std::cos(turn) * p.y - (y0 + y1) / 2;
        Carried got = Of(m, v);
        // the corners of a round tip are flattened a little
        PROP(std::fabs(got.uv.x - std::clamp(0.5 + a / w, 0., 1.)) < 0.06 && std::fabs(got.uv.y - std::clamp(0.5 + b / h, 0., 1.)) < 0.06, "place", "vertex ", pbt::Show(p), " is at ", pbt::Show(got.uv), ", expected (", 0.5 + a / w, ", ", 0.5 + b / h, ")");
      }
    }
    c.NonTrivial(m.VertexCount() > 0);
  }
  c.NonTrivial(!t.behaviors.empty());
}
