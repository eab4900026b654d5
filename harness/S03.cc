// However inputs arrive, the stroke that results is the same.
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/extrudewalk.h"
#include "harness/strokegen.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"

using namespace sg;
using ink::strokes_internal::StrokeVertex;
using pbt::Ctx;
using Inputs = std::vector<StrokeInput>;

namespace {
Inputs operator+(Inputs a, const Inputs& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
// True if the outline ran into itself somewhere.
bool Folded(const InProgressStroke& s) {
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k)
    for (uint32_t v = 0; v < s.GetMesh(k).VertexCount(); ++v)
      if (StrokeVertex::GetSideLabelFromMesh(s.GetMesh(k), v).DecodeSideCategory() == StrokeVertex::SideCategory::kInterior) return true;
  return false;
}
bool Finite(const std::vector<Coat>& v) {
  for (auto& k : v) for (auto p : k.at) if (!(std::fabs(p.x) < 1e15f && std::fabs(p.y) < 1e15f)) return false;
  return true;
}
}  // namespace

PBT(Incremental, 4, "at least two updates with geometry, one of them replacing a prediction") {
  Gen g{c};
  Want w;
  w.max_coats = 2;
  w.tame = true;
  bool gentle = c.Chance(1, 3);  // a plain tip along a smooth path
  if (gentle) w.behaviors = 0, w.max_coats = 1;
  else if (c.Chance(1, 4)) w.swell = true, w.behaviors = 1, w.max_coats = 1;
  Brush b = g.OneBrush(w);
  c.Note(b);
  InProgressStroke s;
  if (c.Chance(1, 3)) {
    // the object drew something else before
    s.Start(g.OneBrush(w));
    Gen::Pen p;
    auto f = ig::Gen{c}.Fmt();
    auto v = g.Path(p, f, 10, c.Len(1, 4));
    if (s.EnqueueInputs(Batch(v), {}).ok()) (void)s.UpdateShape(Duration32::Seconds(1));
    c.Note("used before: ", pbt::Show(v));
  }
  s.Start(b);
  auto f = ig::Gen{c}.Fmt();
  Gen::Pen pen;
  if (w.swell) f.pressure = true, pen.dwell = c.Chance(2, 3);
  Inputs real, prediction;
  Duration32 at = Duration32::Zero();
  int n = c.Len(1, 7), replaced = 0, shown = 0;
  bool folded = false;
  for (int k = 0; k < n; ++k) {
    Inputs more = c.Chance(1, 8) ? Inputs{} : g.Path(pen, f, b.GetSize(), c.Len(0, 5), gentle), predicted;
    Gen::Pen q = pen;
    if (c.Chance(1, 2)) predicted = g.Path(q, f, b.GetSize(), c.Len(0, 3), gentle);
    PROP(s.EnqueueInputs(Batch(more), Batch(predicted)).ok(), "enqueue");
    c.Note("inputs ", pbt::Show(more), " + ", pbt::Show(predicted));
    real = real + more;
    if (k + 1 == n && c.Bool()) s.FinishInputs(), predicted.clear(), c.Note("finish");
    bool update = k + 1 == n || c.Chance(2, 3);
    if (update) {
      if (!prediction.empty()) ++replaced;
      prediction = predicted;
      at = std::max(at, Duration32::Seconds(pen.any && c.Chance(1, 2) ? pen.t : 0)) + Duration32::Seconds(c.PickOf({0.f, 0.01f, 1.f}));
      PROP(s.UpdateShape(at).ok(), "update");
      c.Note("update at ", at.ToSeconds());
      ++shown;
      folded |= Folded(s);
    }
  }
  InProgressStroke t;
  t.Start(b);
  PROP(t.EnqueueInputs(Batch(real), Batch(prediction)).ok(), "enqueue-all");
  if (s.InputsAreFinished()) t.FinishInputs();
  // finishing drops predictions that are not yet processed
  if (!s.InputsAreFinished() || prediction.empty()) {
    PROP(t.UpdateShape(at).ok(), "update-all");
    auto x = Look(s), y = Look(t);
    if (shown > 1 && replaced && x.size() && x[0].triangle_count) c.NonTrivial();
    PROP(SameShape(x, y), "shape", Diff(x, y));
    for (uint32_t k = 0; k < b.CoatCount(); ++k) PROP(SameColors(s.GetMesh(k), t.GetMesh(k)), "colors", "coat ", k, ": ", Diff(x, y));
    // Where the outline folds, the derivatives used for smooth edges depend on the steps.
    if (gentle && !folded && !Folded(t)) {
      c.Label("gentle");
      PROP(Same(x, y), "attributes", Diff(x, y));
    }
  }
}

PBT(Extrusion, 3, "at least three updates in a row show geometry") { ew::Extrusion(c, false); }
