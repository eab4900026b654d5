// Brushes a user would draw with, paths a user would draw, and pictures of the geometry that results.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/brushgen.h"
#include "harness/geo.h"
#include "harness/inputgen.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_family.h"
#include "ink/geometry/envelope.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/point.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/input/stroke_input_batch.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/types/duration.h"

namespace sg {
using ink::Brush;
using ink::BrushCoat;
using ink::BrushFamily;
using ink::BrushTip;
using ink::Duration32;
using ink::InProgressStroke;
using ink::MutableMesh;
using ink::Point;
using ink::StrokeInput;
using ink::StrokeInputBatch;
using ink::Vec;

struct Want {
  int max_coats = 3;
  int behaviors = 3;    // per tip at most
  bool particles = true;
  bool time = true;     // sources that move on with time alone
  bool textures = true;
  bool tame = false;    // the tip keeps an extent both ways
  bool swell = false;   // the tip grows and shrinks a lot
};

inline bool TimeSource(const ink::BrushBehavior::Node& n) {
  auto* s = std::get_if<ink::BrushBehavior::SourceNode>(&n);
  return s && std::string(bg::kSourceNames[(int)s->source]).rfind("kTimeSince", 0) == 0;
}
inline bool HasTime(const BrushTip& t) {
  for (auto& b : t.behaviors) for (auto& n : b.nodes) if (TimeSource(n)) return true;
  return false;
}
inline bool HasTime(const Brush& b) {
  for (auto& k : b.GetCoats()) for (auto& t : k.tips) if (HasTime(t)) return true;
  return false;
}

struct Gen {
  pbt::Ctx& c;
  bg::Gen b{c, 0, true};

  static void Tame(BrushTip& t) {
    t.scale = {std::clamp(t.scale.x, 0.1f, 4.f), std::clamp(t.scale.y, 0.1f, 4.f)};
    t.slant = ink::Angle::Radians(std::clamp(t.slant.ValueInRadians(), -1.f, 1.f));
    t.pinch = std::min(t.pinch, 0.8f);
    for (auto& b : t.behaviors) for (auto& n : b.nodes)
      if (auto* x = std::get_if<ink::BrushBehavior::TargetNode>(&n)) {
        std::string s = bg::kTargetNames[(int)x->target];
        float lo = -1e6f, hi = 1e6f;
        if (s == "kWidthMultiplier" || s == "kHeightMultiplier" || s == "kSizeMultiplier") lo = 0.5f, hi = 1.5f;
        else if (s == "kSlantOffsetInRadians") lo = -0.2f, hi = 0.2f;
        else if (s == "kPinchOffset") lo = -0.1f, hi = 0.1f;
        else if (s.rfind("kPosition", 0) == 0) lo = -2, hi = 2;
        for (float& v : x->target_modifier_range) v = std::clamp(v, lo, hi);
        if (x->target_modifier_range[0] == x->target_modifier_range[1]) x->target_modifier_range = {std::max(lo, -1.f), std::min(hi, 1.f)};
      }
  }
  BrushTip Tip(const Want& w) {
    BrushTip t;
    if (c.Chance(1, 3)) {
      // plain shapes
      t.scale = {c.PickOf({1.f, 0.5f, 0.1f}), c.PickOf({1.f, 0.5f, 2.f})};
      t.corner_rounding = c.PickOf({1.f, 0.f, 0.5f});
      if (w.behaviors) for (int k = c.Len(0, w.behaviors); k > 0; --k) t.behaviors.push_back(b.Behavior());
    } else {
      t = b.Tip(w.behaviors);
    }
    if (!w.particles) t.particle_gap_distance_scale = 0, t.particle_gap_duration = Duration32::Zero();
    if (t.particle_gap_distance_scale > 0) t.particle_gap_distance_scale = std::max(w.tame ? 0.4f : 0.1f, t.particle_gap_distance_scale);
    if (t.particle_gap_duration > Duration32::Zero()) t.particle_gap_duration = Duration32::Seconds(std::max(w.tame ? 0.01f : 0.004f, t.particle_gap_duration.ToSeconds()));
    if (w.tame) Tame(t);
    if (w.swell) {
      using B = ink::BrushBehavior;
      auto s = c.PickOf<B::Source>({B::Source::kNormalizedPressure, B::Source::kNormalizedPressure, B::Source::kDistanceTraveledInMultiplesOfBrushSize, B::Source::kTimeOfInputInSeconds});
      float hi = s == B::Source::kTimeOfInputInSeconds ? 0.1f : 1.f;
      t.behaviors.push_back({{B::SourceNode{s, c.PickOf<B::OutOfRange>({B::OutOfRange::kMirror, B::OutOfRange::kClamp, B::OutOfRange::kRepeat}), {0, hi}}, B::TargetNode{B::Target::kSizeMultiplier, {0.5f, 2}}}});
    }
    if (!w.time) std::erase_if(t.behaviors, [](auto& x) { return std::any_of(x.nodes.begin(), x.nodes.end(), TimeSource); });
    return t;
  }
  BrushCoat Coat(const Want& w) {
    BrushCoat k;
    k.tips.push_back(Tip(w));
    if (w.textures && c.Chance(1, 2)) k.paint = b.Paint(2);
    return k;
  }
  BrushFamily Family(const Want& w) {
    std::vector<BrushCoat> coats;
    int n = c.Chance(1, 12) ? 0 : c.Len(1, w.max_coats);
    for (int k = 0; k < n; ++k) coats.push_back(Coat(w));
    BrushFamily::InputModel m;
    if (c.Chance(1, 3)) m = BrushFamily::SpringModelV1{};
    else m = BrushFamily::SpringModelV2{};
    auto f = BrushFamily::Create(coats, "", m);
    if (!f.ok()) throw pbt::Discard{};
    return *f;
  }
  float Size() { return c.PickOf({10.f, 1.f, 5.f, 40.f}); }
  float Epsilon(float size, bool fine = false) { return fine ? size * c.PickOf({0.02f, 0.005f, 0.1f}) : size * c.PickOf({0.02f, 0.005f, 0.1f, 0.5f, 1.f}); }
  ink::Color Color() { return ink::Color::FromFloat(c.Choice(4) / 4.f, c.Choice(4) / 4.f, c.Choice(4) / 4.f, c.Choice(4) / 4.f, ink::Color::Format::kGammaEncoded); }
  Brush OneBrush(const Want& w) {
    float size = Size();
    auto r = Brush::Create(Family(w), Color(), size, Epsilon(size, w.tame));
    if (!r.ok()) throw pbt::Discard{};
    return *r;
  }

  // A pen moving on from where it was.
  struct Pen {
    Point at{0, 0};
    float heading = 0, t = 0;
    bool any = false;
    bool dwell = false;  // hardly moves
    StrokeInput last;
  };
  std::vector<StrokeInput> Path(Pen& p, const ig::Gen::Format& f, float size, int n, bool gentle = false) {
    std::vector<StrokeInput> v;
    ig::Gen g{c, 0};
    int manner = gentle ? 0 : c.Weighted({4, 2, 2, 1});
    for (int k = 0; k < n; ++k) {
      if (p.any) {
        if (gentle || !c.Chance(1, 10)) p.t += c.PickOf({0.008f, 0.002f, 0.016f, 0.03f});
        float step = size * (gentle ? c.PickOf({0.5f, 1.f, 3.f}) : c.PickOf({0.25f, 0.05f, 1.f, 0.f, 3.f}));
        if (p.dwell) step = size * c.PickOf({0.05f, 0.02f, 0.15f, 0.f, 0.5f});
        switch (manner) {
          case 0: p.heading += gentle ? c.UniformF(-0.1f, 0.1f) : c.UniformF(-0.4f, 0.4f); break;
          case 1: p.heading += c.PickOf({0.f, 1.5707964f, 3.1415927f, -2.5f}); break;  // corners and turns back
          case 2: p.heading += 0.5f; break;                                           // loops
          default: p.heading = c.UniformF(-3.2f, 3.2f); break;
        }
        p.at = p.at + Vec{step * std::cos(p.heading), step * std::sin(p.heading)};
      } else {
        p.at = {(float)c.Signed(-20, 20), (float)c.Signed(-20, 20)};
        p.t = c.Chance(1, 4) ? 0.5f : 0.f;
      }
      StrokeInput i = g.One(f, p.t);
      i.position = p.at;
      if (p.any && i.position == p.last.position && i.elapsed_time == p.last.elapsed_time) {
        p.t += 0.008f;
        i.elapsed_time = Duration32::Seconds(p.t);
      }
      p.any = true, p.last = i;
      v.push_back(i);
    }
    return v;
  }
};

inline StrokeInputBatch Batch(const std::vector<StrokeInput>& v) {
  auto b = StrokeInputBatch::Create(v);
  if (!b.ok()) throw pbt::Discard{};
  return *b;
}

// Everything one can see of one coat.
struct Coat {
  std::vector<std::byte> vertices, indices;
  uint32_t vertex_count = 0, triangle_count = 0;
  std::vector<std::vector<uint32_t>> outlines;
  std::optional<ink::Rect> bounds;
  std::vector<Point> at;                       // per vertex
  std::vector<std::array<uint32_t, 3>> tris;
};
// What vertices carry besides positions, without the derivatives and margins used for smooth edges.
inline bool SameColors(const MutableMesh& a, const MutableMesh& b) {
  using V = ink::strokes_internal::StrokeVertex;
  if (a.VertexCount() != b.VertexCount()) return false;
  for (uint32_t k = 0; k < a.VertexCount(); ++k) {
    auto x = V::GetFromMesh(a, k).non_position_attributes, y = V::GetFromMesh(b, k).non_position_attributes;
    if (x.opacity_shift != y.opacity_shift || x.hsl_shift != y.hsl_shift || !(x.surface_uv == y.surface_uv)) return false;
    if (x.side_label.DecodeSideCategory() != y.side_label.DecodeSideCategory() || x.forward_label.DecodeForwardCategory() != y.forward_label.DecodeForwardCategory()) return false;
  }
  return true;
}
inline bool SameRect(const std::optional<ink::Rect>& a, const std::optional<ink::Rect>& b) {
  if (!a || !b) return !a == !b;
  return a->XMin() == b->XMin() && a->XMax() == b->XMax() && a->YMin() == b->YMin() && a->YMax() == b->YMax();
}
inline Coat Look(const MutableMesh& m, absl::Span<const absl::Span<const uint32_t>> outlines, const ink::Envelope& bounds) {
  Coat r;
  r.vertices.assign(m.RawVertexData().begin(), m.RawVertexData().end());
  r.indices.assign(m.RawIndexData().begin(), m.RawIndexData().end());
  r.vertex_count = m.VertexCount(), r.triangle_count = m.TriangleCount();
  for (auto o : outlines) r.outlines.emplace_back(o.begin(), o.end());
  r.bounds = bounds.AsRect();
  for (uint32_t k = 0; k < m.VertexCount(); ++k) r.at.push_back(m.VertexPosition(k));
  for (uint32_t k = 0; k < m.TriangleCount(); ++k) r.tris.push_back(m.TriangleIndices(k));
  return r;
}
inline std::vector<Coat> Look(const InProgressStroke& s) {
  std::vector<Coat> r;
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) r.push_back(Look(s.GetMesh(k), s.GetCoatOutlines(k), s.GetMeshBounds(k)));
  return r;
}
inline bool Same(const Coat& a, const Coat& b) {
  return a.vertices == b.vertices && a.indices == b.indices && a.outlines == b.outlines && SameRect(a.bounds, b.bounds);
}
// The same but for what vertices carry besides their position.
inline bool SameShape(const Coat& a, const Coat& b) {
  return a.at == b.at && a.indices == b.indices && a.outlines == b.outlines && SameRect(a.bounds, b.bounds);
}
inline bool SameShape(const std::vector<Coat>& a, const std::vector<Coat>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k) if (!SameShape(a[k], b[k])) return false;
  return true;
}
inline bool Same(const std::vector<Coat>& a, const std::vector<Coat>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k) if (!Same(a[k], b[k])) return false;
  return true;
}
inline std::string Diff(const std::vector<Coat>& a, const std::vector<Coat>& b) {
  if (a.size() != b.size()) return absl::StrCat("coats ", a.size(), " / ", b.size());
  for (size_t k = 0; k < a.size(); ++k) {
    if (Same(a[k], b[k])) continue;
    std::string first;
    if (a[k].vertices.size() == b[k].vertices.size() && a[k].vertex_count)
      for (size_t i = 0; i < a[k].vertices.size(); ++i)
        if (a[k].vertices[i] != b[k].vertices[i]) {
          size_t stride = a[k].vertices.size() / a[k].vertex_count, at = i / 4 * 4;
          float x, y;
          std::memcpy(&x, &a[k].vertices[at], 4), std::memcpy(&y, &b[k].vertices[at], 4);
          first = absl::StrCat(", vertex ", i / stride, " of stride ", stride, " differs at byte ", i % stride, ": ", x, " / ", y);
          break;
        }
    size_t v = 0;
    while (v < a[k].at.size() && v < b[k].at.size() && a[k].at[v] == b[k].at[v]) ++v;
    return absl::StrCat("coat ", k, ": vertices ", a[k].vertex_count, " / ", b[k].vertex_count, ", triangles ", a[k].triangle_count, " / ", b[k].triangle_count, ", outlines ", a[k].outlines.size(), " / ", b[k].outlines.size(),
                        ", first differing position ", v, first, a[k].vertices == b[k].vertices ? ", same vertices" : "", a[k].indices == b[k].indices ? ", same triangles" : "", a[k].outlines == b[k].outlines ? ", same outlines" : "", SameRect(a[k].bounds, b[k].bounds) ? ", same bounds" : "");
  }
  return "none";
}
}  // namespace sg
