// Tip states extruded update by update: the mesh is that of starting over, and what changed is announced.
#pragma once
#include <algorithm>
#include <map>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/strokegen.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_state.h"
#include "ink/strokes/internal/stroke_vertex.h"

namespace ew {
using ink::Angle;
using ink::MutableMesh;
using ink::Point;
using ink::strokes_internal::BrushTipExtruder;
using ink::strokes_internal::BrushTipState;
using ink::strokes_internal::StrokeVertex;
using pbt::Ctx;

struct Walk {
  Ctx& c;
  int manner, shape;
  float unit;  // step length
  bool colors, wild;
  Point at{0, 0};
  float heading = 0, size = 1, turn = 0, rotation = 0, rounding, aspect, slant = 0, pinch = 0;
  explicit Walk(Ctx& c) : c(c) {
    manner = c.Weighted({4, 2, 2, 1});
    shape = c.Weighted({3, 1});
    unit = c.PickOf({0.1f, 0.3f, 0.05f, 0.8f});
    colors = c.Chance(1, 3);
    wild = c.Chance(1, 5);
    rounding = c.PickOf({1.f, 0.f, 0.5f});
    aspect = c.PickOf({1.f, 0.5f, 0.2f});
    if (c.Chance(1, 4)) slant = c.UniformF(-0.5f, 0.5f), pinch = c.UniformF(0, 0.5f);
    turn = c.PickOf({0.5f, 0.2f, 1.f});
  }
  BrushTipState Next() {
    switch (manner) {
      case 0: heading += c.UniformF(-0.4f, 0.4f); break;
      case 1: heading += c.PickOf({0.f, 1.5707964f, 3.1415927f, -2.5f}); break;
      case 2: heading += turn; break;
      default: heading = c.UniformF(-3.2f, 3.2f); break;
    }
    float step = unit * c.PickOf({1.f, 0.5f, 2.f, 0.2f, 4.f});
    at = {at.x + step * std::cos(heading), at.y + step * std::sin(heading)};
    switch (c.Weighted({6, 4, 1, 1})) {
      case 0: break;
      case 1: size = std::clamp(size * c.UniformF(0.8f, 1.25f), 0.2f, 3.f); break;
      case 2: size = c.PickOf({0.3f, 1.f, 2.f}); break;
      default: size = std::min(size * 2, 4.f); break;
    }
    if (wild) {  // shapes that change a lot from one to the next
      if (c.Bool()) rounding = c.UniformF(0, 1);
      if (c.Bool()) aspect = c.PickOf({1.f, 0.1f, 3.f, 0.01f});
      if (c.Bool()) slant = c.UniformF(-1.5f, 1.5f), pinch = c.UniformF(0, 1);
      if (c.Bool()) rotation = c.UniformF(-3.1f, 3.1f);
      if (c.Chance(1, 4)) size = c.PickOf({0.1f, 0.03f, 10.f});
    }
    if (shape == 1) rotation += c.UniformF(-0.3f, 0.3f);
    return Tip(size);
  }
  BrushTipState Tip(float s) {
    BrushTipState t{.position = at, .width = s, .height = s * aspect, .percent_radius = rounding, .rotation = Angle::Radians(rotation), .slant = Angle::Radians(slant), .pinch = pinch};
    if (colors) t.opacity_multiplier = c.Choice(5) / 4.f, t.hue_offset_in_full_turns = c.Choice(4) / 4.f;
    if (c.Chance(1, 25)) t.width = t.height = 0;  // a gap
    return t;
  }
};

inline sg::Coat Look(const MutableMesh& m, const BrushTipExtruder& e) {
  std::vector<absl::Span<const uint32_t>> o;
  for (auto& x : e.GetOutlines()) if (!x.GetIndices().empty()) o.push_back(x.GetIndices());
  return sg::Look(m, o, e.GetBounds());
}

inline std::string Show(const std::vector<BrushTipState>& v) {
  std::string s;
  for (auto& t : v) s += absl::StrCat("{", t.position.x, ",", t.position.y, " ", t.width, "x", t.height, " r", t.rotation.ValueInRadians(), t.pinch || t.slant != Angle() ? absl::StrCat(" s", t.slant.ValueInRadians(), " p", t.pinch) : "", " c", t.percent_radius, "} ");
  return s;
}

// `announce`: check what updates report instead of the result.
inline void Extrusion(Ctx& c, bool announce) {
  Walk w(c);
  float epsilon = w.wild ? c.PickOf({0.02f, 0.005f, 0.1f, 0.5f}) : c.PickOf({0.02f, 0.005f, 0.1f});
  bool winding = c.Chance(1, 6);
  c.Note("epsilon ", epsilon, ", rounding ", w.rounding, ", aspect ", w.aspect, ", slant ", w.slant, ", pinch ", w.pinch, winding ? ", particles" : "");
  MutableMesh mesh(StrokeVertex::FullMeshFormat()), other(StrokeVertex::FullMeshFormat());
  BrushTipExtruder e;
  if (c.Chance(1, 5)) {  // used before
    Walk o(c);
    std::vector<BrushTipState> v, q;
    for (int k = c.Len(0, 6); k > 0; --k) v.push_back(o.Next());
    for (int k = c.Len(0, 6); k > 0; --k) q.push_back(o.Next());
    e.StartStroke(epsilon, winding, other);
    e.ExtendStroke(v, q);
  }
  e.StartStroke(epsilon, winding, mesh);
  std::vector<BrushTipState> fixed;
  int n = c.Len(1, 6), changed = 0, swallowed = 0;
  sg::Coat before = Look(mesh, e);
  for (int step = 0; step < n; ++step) {
    std::vector<BrushTipState> add, loose;
    for (int k = c.Len(0, step ? 4 : 8); k > 0; --k) add.push_back(w.Next());
    {
      Walk p = w;
      for (int k = c.Len(1, 5); k > 0; --k) loose.push_back(p.Next());
      if (c.Chance(1, 3)) {
        // one that covers all there is, or nearly, followed by more
        float s = c.PickOf({6.f, 3.f, 10.f});
        p.aspect = std::max(p.aspect, 0.5f);
        for (int k = c.Len(1, 2); k > 0; --k) {
          if (c.Bool()) {
            auto all = fixed;
            all.insert(all.end(), add.begin(), add.end());
            if (!all.empty()) p.at = all[c.Choice((int)all.size() - 1)].position;
          }
          loose.insert(loose.begin() + c.Int(0, (int)loose.size()), p.Tip(s));
          s *= 1.7f;
        }
      }
    }
    if (c.Chance(1, 12)) { w.size = c.PickOf({5.f, 8.f}); add.push_back(w.Next()); w.size = 1; }
    fixed.insert(fixed.end(), add.begin(), add.end());
    c.Note("fixed ", Show(add), "loose ", Show(loose));
    auto update = e.ExtendStroke(add, loose);
    sg::Coat now = Look(mesh, e);
    for (auto p : now.at) if (!(std::fabs(p.x) < 1e6f && std::fabs(p.y) < 1e6f)) throw pbt::Discard{};
    if (!announce) {
      MutableMesh again(StrokeVertex::FullMeshFormat());
      BrushTipExtruder f;
      f.StartStroke(epsilon, winding, again);
      f.ExtendStroke(fixed, loose);
      sg::Coat want = Look(again, f);
      PROP(sg::SameShape(now, want), "extrusion-shape", "update ", step, ": ", sg::Diff({now}, {want}));
      PROP(sg::SameColors(mesh, again), "extrusion-colors", "update ", step);
    } else {
      auto region = update.region.AsRect();
      std::map<std::array<std::pair<float, float>, 3>, int> count;
      auto key = [](const sg::Coat& x, const std::array<uint32_t, 3>& t) {
        std::array<std::pair<float, float>, 3> r;
        for (int i = 0; i < 3; ++i) r[i] = {x.at[t[i]].x, x.at[t[i]].y};
        std::sort(r.begin(), r.end());
        return r;
      };
      for (auto& t : now.tris) ++count[key(now, t)];
      for (auto& t : before.tris) --count[key(before, t)];
      for (auto& [t, d] : count) {
        if (!d || t[0] == t[1] || t[1] == t[2]) continue;
        ++swallowed;
        for (auto [x, y] : t) PROP((region && x >= region->XMin() && x <= region->XMax() && y >= region->YMin() && y <= region->YMax()), "extrusion-region", "update ", step, ": a triangle ", d > 0 ? "added" : "removed", " at ", Point{x, y}, " outside ", pbt::Show(region));
      }
      // Before the first offset nothing changed.
      size_t stride = now.vertex_count ? now.vertices.size() / now.vertex_count : 0;
      uint32_t v = std::min(now.vertex_count, before.vertex_count), t = std::min(now.triangle_count, before.triangle_count);
      if (update.first_vertex_offset) v = std::min(v, *update.first_vertex_offset);
      else PROP(now.vertex_count == before.vertex_count, "extrusion-vertices", "update ", step, ": ", before.vertex_count, " to ", now.vertex_count);
      if (update.first_index_offset) t = std::min(t, *update.first_index_offset / 3);
      else PROP(now.triangle_count == before.triangle_count, "extrusion-triangles", "update ", step, ": ", before.triangle_count, " to ", now.triangle_count);
      PROP(std::equal(now.vertices.begin(), now.vertices.begin() + v * stride, before.vertices.begin()), "extrusion-first-vertex", "update ", step, ": vertices before ", v, " changed");
      PROP(std::equal(now.tris.begin(), now.tris.begin() + t, before.tris.begin()), "extrusion-first-index", "update ", step, ": triangles before ", t, " changed");
      // Bounds are those of the positions in outlines.
      ink::Envelope used, all;
      for (auto& o : now.outlines) for (auto k : o) used.Add(now.at[k]);
      for (auto& x : now.tris) for (auto k : x) used.Add(now.at[k]);
      for (auto p : now.at) all.Add(p);
      auto u = used.AsRect(), a = all.AsRect();
      PROP(!now.bounds == !u || !now.bounds == !a, "extrusion-bounds", "update ", step, ": ", pbt::Show(now.bounds), " / ", pbt::Show(u));
      if (now.bounds && u) PROP(now.bounds->Contains(*u) && a->Contains(*now.bounds), "extrusion-bounds", "update ", step, ": ", pbt::Show(now.bounds), " / ", pbt::Show(u));
    }
    if (now.triangle_count && before.triangle_count) ++changed;
    before = std::move(now);
  }
  if (changed > 1) c.NonTrivial();
}
}  // namespace ew
