// A stroke while it is drawn: queued and processed inputs, errors that change nothing, what the geometry shows, copies.
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/extrudewalk.h"
#include "harness/strokegen.h"
#include "harness/strokepic.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/strokes/stroke.h"

using namespace sg;
using ink::PartitionedMesh;
using ink::Stroke;
using pbt::Ctx;
using Retain = InProgressStroke::RetainAttributes;
using Id = ink::MeshFormat::AttributeId;

namespace {
Inputs operator+(Inputs a, const Inputs& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
bool Shifts(const BrushTip& t) {
  for (auto& b : t.behaviors) for (auto& n : b.nodes)
    if (auto* x = std::get_if<ink::BrushBehavior::TargetNode>(&n)) {
      std::string s = bg::kTargetNames[(int)x->target];
      if (s == "kHueOffsetInRadians" || s == "kSaturationMultiplier" || s == "kLuminosity") return true;
    }
  return false;
}
bool Finite(const std::vector<Coat>& v) {
  for (auto& k : v) for (auto p : k.at) if (!(std::fabs(p.x) < 1e15f && std::fabs(p.y) < 1e15f)) return false;
  return true;
}
bool Covers(const std::optional<ink::Rect>& r, Point p) { return r && p.x >= r->XMin() && p.x <= r->XMax() && p.y >= r->YMin() && p.y <= r->YMax(); }

struct Model {
  std::optional<Brush> brush;
  bool finished = true;
  Inputs queued, queued_prediction, real, prediction;
  Duration32 elapsed = Duration32::Zero();
};
struct Copy {
  Stroke stroke;
  Picture picture;
};
}  // namespace

PBT(History, 4, "geometry was produced and later changed or a copy was taken") {
  Gen g{c};
  Want w;
  w.max_coats = 2;
  auto s = std::make_unique<InProgressStroke>();
  Model m;
  Gen::Pen pen;
  ig::Gen::Format f{};
  std::vector<Coat> shape;
  std::optional<ink::Rect> region;
  std::vector<Copy> copies;
  int updates = 0, timed = 0;
  bool dry = false;
  auto check = [&](const std::string& op, bool shape_may_change) {
    PROP((s->GetBrush() != nullptr) == m.brush.has_value(), "brush-present", op);
    if (m.brush) PROP(SameBrush(*s->GetBrush(), *m.brush), "brush", op);
    PROP(s->BrushCoatCount() == (m.brush ? m.brush->CoatCount() : 0u), "coats", op);
    PROP(s->InputsAreFinished() == m.finished, "finished", op);
    PROP(SameInputs(s->GetInputs(), m.real + m.prediction), "inputs", op, ": has ", s->GetInputs().Size(), ", expected ", m.real.size(), " + ", m.prediction.size());
    PROP(s->RealInputCount() == m.real.size() && s->PredictedInputCount() == m.prediction.size() && s->InputCount() == m.real.size() + m.prediction.size(), "counts", op, ": ", s->RealInputCount(), " + ", s->PredictedInputCount(), ", expected ", m.real.size(), " + ", m.prediction.size());
    // Something to do: inputs wait, or a finished stroke still shows its prediction.
    bool must = !m.queued.empty() || !m.queued_prediction.empty() || (m.finished && !m.prediction.empty());
    if (must) PROP(s->NeedsUpdate(), "needs-update", op);
    else if (!m.brush || !HasTime(*m.brush)) PROP(!s->NeedsUpdate(), "needs-no-update", op);
    else if (!m.real.empty()) {
      // Time alone changes the stroke until the longest range of a time source has passed since the last input.
      float bound = 0;
      for (auto& k : m.brush->GetCoats()) for (auto& t : k.tips) for (auto& b : t.behaviors) for (auto& n : b.nodes)
        if (TimeSource(n)) {
          auto& x = std::get<ink::BrushBehavior::SourceNode>(n);
          bound = std::max(bound, std::max(x.source_value_range[0], x.source_value_range[1]) / (std::string(bg::kSourceNames[(int)x.source]).find("Millis") != std::string::npos ? 1000 : 1));
        }
      float last = m.real.back().elapsed_time.ToSeconds(), since = std::max(m.elapsed.ToSeconds(), m.prediction.empty() ? last : m.prediction.back().elapsed_time.ToSeconds()) - last;
      timed += since < bound;
      // What lies within the precision of the brush of its neighbor is left out, and smoothing lets the tip catch up after
      // the last input for up to 20 steps of 1/180 s: the time of the last position used differs a little.
      float first = m.real.front().elapsed_time.ToSeconds(), e = 0.125f;
      if (since > bound + e) PROP(!s->NeedsUpdate(), "animation-over", op, ": ", since, " after the last input, behaviors end at ", bound);
      if (since + last - first < bound - e) PROP(s->NeedsUpdate(), "animation-runs", op, ": ", since, " after the last input, behaviors end at ", bound);
    }
    std::vector<Coat> now = Look(*s);
    if (!shape_may_change) {
      PROP(sg::Same(now, shape), "geometry-left-alone", op, ": ", Diff(shape, now));
      PROP(SameRect(s->GetUpdatedRegion().AsRect(), region), "region-left-alone", op);
    }
    for (auto& k : now) {
      ink::Envelope e;
      for (auto& t : k.tris) for (auto v : t) { PROP(v < k.vertex_count, "triangle-index", op, v); }
      for (auto& o : k.outlines) {
        PROP(!o.empty(), "empty-outline", op);
        for (auto v : o) { PROP(v < k.vertex_count, "outline-index", op, v, " of ", k.vertex_count); e.Add(k.at[v]); }
      }
      for (auto& t : k.tris) for (auto v : t) e.Add(k.at[v]);
      auto used = e.AsRect();
      for (auto p : k.at) e.Add(p);
      // exactly the positions in the mesh; vertices that are left over may or may not count
      PROP(SameRect(k.bounds, used) || SameRect(k.bounds, e.AsRect()) || (k.bounds && used && k.bounds->Contains(*used) && e.AsRect()->Contains(*k.bounds)), "bounds", op, ": reports ", pbt::Show(k.bounds), ", the geometry spans ", pbt::Show(used), ", all vertices ", pbt::Show(e.AsRect()));
      PROP(k.triangle_count == 0 || !k.outlines.empty(), "outline-missing", op);
    }
    for (auto& k : copies) PROP(Same(Of(k.stroke), k.picture), "copy-isolated", op);
    shape = std::move(now);
    region = s->GetUpdatedRegion().AsRect();
  };
  auto start = [&](const Brush& b) {
    m = Model{};
    m.brush = b;
    m.finished = false;
    pen = {};
    f = ig::Gen{c}.Fmt();
    dry = false;
  };
  check("new", true);
  PROP(!region, "new-region");
  int n = c.Len(1, 14);
  for (int step = 0; step < n; ++step) {
    int op = m.brush ? c.Weighted({5, 6, 1, 1, 1, 1, 1, 1}) : c.Weighted({1, 1, 6, 1, 1, 0, 1, 0});
    if (step == 0 && c.Chance(9, 10)) op = 2;
    switch (op) {
      case 0: {  // more inputs
        Inputs real, predicted;
        Gen::Pen p = pen;
        if (!c.Chance(1, 6)) real = g.Path(p, f, m.brush ? m.brush->GetSize() : 1, c.Len(0, 5));
        Gen::Pen q = p;
        if (c.Chance(1, 2)) predicted = g.Path(q, f, m.brush ? m.brush->GetSize() : 1, c.Len(0, 3));
        // sometimes inputs that do not follow
        if (c.Chance(1, 8) && real.size() + predicted.size() > 0) {
          Inputs& where = real.empty() || (!predicted.empty() && c.Bool()) ? predicted : real;
          auto& x = where[0];
          Inputs before = m.real + m.queued;
          switch (c.Choice(3)) {
            case 0: for (auto& y : where) y.tool_type = (StrokeInput::ToolType)(((int)y.tool_type + 1) % 4); break;
            case 1: for (auto& y : where) y.pressure = y.pressure == -1 ? 0.5f : -1; break;
            case 2: if (!before.empty() && before.back().elapsed_time > Duration32::Zero()) x.elapsed_time = Duration32::Zero(); break;
            default: if (!before.empty()) x.position = before.back().position, x.elapsed_time = before.back().elapsed_time; break;
          }
        }
        if (ig::Ok(real) != true || ig::Ok(predicted) != true) break;
        StrokeInputBatch rb = Batch(real), pb = Batch(predicted);
        Inputs before = m.real + m.queued, all = before + real + predicted;
        bool follows = real.empty() && predicted.empty() ? true : ig::Ok(before + real + predicted) == true;
        auto status = s->EnqueueInputs(rb, pb);
        c.Note("enqueue ", real.size(), " + ", predicted.size(), status.ok() ? "" : " refused", ": ", pbt::Show(real), " + ", pbt::Show(predicted));
        if (!m.brush || m.finished) PROP(status.code() == absl::StatusCode::kFailedPrecondition, "enqueue-when-finished", status);
        else if (!follows) PROP(status.code() == absl::StatusCode::kInvalidArgument, "enqueue-unordered", status, " for ", pbt::Show(all));
        else {
          PROP(status.ok(), "enqueue", status, " for ", pbt::Show(all));
          m.queued = m.queued + real;
          m.queued_prediction = predicted;
          pen = p;
        }
        PROP(SameInputs(rb, real) && SameInputs(pb, predicted), "arguments");
        check("enqueue", false);
        break;
      }
      case 1: {  // time passes
        Duration32 t = m.elapsed + Duration32::Seconds(c.PickOf({0.01f, 0.f, 0.1f, 1.f}));
        if (c.Chance(1, 4) && pen.any) t = std::max(t, Duration32::Seconds(pen.t));
        if (c.Chance(1, 10)) t = c.PickOf({Duration32::Seconds(-0.1f), m.elapsed - Duration32::Seconds(0.01f), Duration32::Infinite(), -Duration32::Infinite(), Duration32::Zero()});
        if (t == Duration32::Infinite() && !c.Chance(1, 4)) t = m.elapsed;
        std::vector<Coat> old = shape;
        std::optional<ink::Rect> old_region = region;
        bool nothing = m.queued.empty() && m.queued_prediction.empty() && m.prediction.empty() && m.brush && !s->NeedsUpdate();
        auto status = s->UpdateShape(t);
        c.Note("update at ", t.ToSeconds(), status.ok() ? "" : " refused");
        if (!m.brush) {
          PROP(status.code() == absl::StatusCode::kFailedPrecondition, "update-before-start", status);
          check("update", false);
          break;
        }
        if (t < Duration32::Zero() || t < m.elapsed) {
          PROP(status.code() == absl::StatusCode::kInvalidArgument, "update-in-the-past", status);
          check("update", false);
          break;
        }
        PROP(status.ok(), "update", status);
        m.elapsed = t;
        m.real = m.real + m.queued;
        m.prediction = m.queued_prediction;
        m.queued.clear(), m.queued_prediction.clear();
        check("update", true);
        if (nothing && dry) PROP(sg::SameShape(shape, old), "dry", "after ", t.ToSeconds(), ": ", Diff(old, shape));
        if (m.real.empty() && m.prediction.empty()) for (auto& k : shape) PROP(k.triangle_count == 0 && k.outlines.empty(), "geometry-without-inputs");
        dry = m.finished && !s->NeedsUpdate();
        // the region covers every triangle that came or went
        for (size_t k = 0; k < shape.size(); ++k) {
          std::map<std::array<std::pair<float, float>, 3>, int> count;
          auto key = [](const Coat& x, const std::array<uint32_t, 3>& t) {
            std::array<std::pair<float, float>, 3> r;
            for (int i = 0; i < 3; ++i) r[i] = {x.at[t[i]].x, x.at[t[i]].y};
            std::sort(r.begin(), r.end());
            return r;
          };
          for (auto& t : shape[k].tris) ++count[key(shape[k], t)];
          for (auto& t : old[k].tris) --count[key(old[k], t)];
          for (auto& [t, d] : count) {
            if (!d || t[0] == t[1] || t[1] == t[2]) continue;
            ++updates;
            for (auto [x, y] : t) PROP(Covers(region, {x, y}), "updated-region", "coat ", k, ": a triangle ", d > 0 ? "added" : "removed", " at ", Point{x, y}, " outside ", pbt::Show(region));
          }
        }
        if (old_region) PROP(region && region->Contains(*old_region), "region-shrank");
        break;
      }
      case 2: {  // a new stroke, sometimes with the brush in use
        if (m.brush && c.Chance(1, 4)) {
          Brush same = *m.brush;
          s->Start(*s->GetBrush());
          start(same);
          c.Note("start again");
        } else {
          Brush b = g.OneBrush(w);
          s->Start(b);
          start(b);
          c.Note("start ", b.CoatCount(), " coats, size ", b.GetSize(), ", epsilon ", b.GetEpsilon(), ": ", b);
        }
        check("start", true);
        for (auto& k : shape) PROP(k.triangle_count == 0 && k.vertex_count == 0 && k.outlines.empty() && !k.bounds, "start-empty");
        PROP(!region, "start-region");
        break;
      }
      case 3: {
        s->FinishInputs();
        m.finished = true;
        m.queued_prediction.clear();
        c.Note("finish");
        check("finish", false);
        dry = m.brush && !s->NeedsUpdate() && m.queued.empty();
        break;
      }
      case 4: {
        s->ResetUpdatedRegion();
        region.reset();
        c.Note("reset region");
        check("reset region", false);
        break;
      }
      case 5: {  // a copy
        if (!m.brush) break;
        Retain r = c.Bool() ? Retain::kAll : Retain::kUsedByThisBrush;
        Stroke copy = s->CopyToStroke(r);
        c.Note("copy");
        PROP(SameBrush(copy.GetBrush(), *m.brush), "copy-brush");
        PROP(SameInputs(copy.GetInputs(), m.real + m.prediction), "copy-inputs", copy.GetInputs().Size());
        PROP(copy.GetShape().RenderGroupCount() == m.brush->CoatCount(), "copy-groups");
        for (uint32_t k = 0; k < m.brush->CoatCount() && Finite(shape); ++k) {
          auto& now = shape[k];
          std::vector<std::array<Point, 3>> have;
          std::vector<int> offset;  // vertices per mesh
          for (auto& mesh : copy.GetShape().RenderGroupMeshes(k)) {
            for (uint32_t t = 0; t < mesh.TriangleCount(); ++t) {
              auto tri = mesh.GetTriangle(t);
              have.push_back({tri.p0, tri.p1, tri.p2});
            }
          }
          PROP(have.size() == now.triangle_count, "copy-triangles", pbt::Show(now.bounds), now.vertex_count, *m.brush, " coat ", k, ": ", have.size(), ", expected ", now.triangle_count);
          if (!now.bounds) continue;
          float tx = now.bounds->Width() / 4095 + 1e-5f * std::max(std::fabs(now.bounds->XMin()), std::fabs(now.bounds->XMax())), ty = now.bounds->Height() / 4095 + 1e-5f * std::max(std::fabs(now.bounds->YMin()), std::fabs(now.bounds->YMax()));
          for (size_t t = 0; t < have.size(); ++t)
            for (int i = 0; i < 3; ++i) {
              Point p = now.at[now.tris[t][i]], q = have[t][i];
              PROP(std::fabs(p.x - q.x) <= tx && std::fabs(p.y - q.y) <= ty, "copy-position", "coat ", k, ", triangle ", t, ": ", q, ", expected ", p);
            }
          if (now.triangle_count) {
            // outlines keep the vertices that triangles use, in order
            std::vector<bool> used(now.vertex_count);
            for (auto& t : now.tris) for (auto v : t) used[v] = true;
            std::vector<std::vector<Point>> want_lines;
            for (auto& o : now.outlines) {
              std::vector<Point> line;
              for (auto v : o) if (used[v]) line.push_back(now.at[v]);
              if (!line.empty()) want_lines.push_back(line);
            }
            PROP(copy.GetShape().OutlineCount(k) == want_lines.size(), "copy-outlines", copy.GetShape().OutlineCount(k), ", expected ", want_lines.size());
            for (size_t o = 0; o < want_lines.size(); ++o) {
              PROP(copy.GetShape().Outline(k, o).size() == want_lines[o].size(), "copy-outline-size", copy.GetShape().Outline(k, o).size(), ", expected ", want_lines[o].size());
              for (size_t i = 0; i < want_lines[o].size(); ++i) {
                Point p = want_lines[o][i], q = copy.GetShape().OutlinePosition(k, o, i);
                PROP(std::fabs(p.x - q.x) <= tx && std::fabs(p.y - q.y) <= ty, "copy-outline", "coat ", k, ": ", q, ", expected ", p);
              }
            }
            // which attributes are kept
            auto& coat = m.brush->GetCoats()[k];
            bool winding = std::any_of(coat.paint.texture_layers.begin(), coat.paint.texture_layers.end(), [](auto& l) { return l.mapping == ink::BrushPaint::TextureMapping::kWinding; });
            std::vector<Id> want;
            for (auto a : s->GetMesh(k).Format().Attributes()) {
              bool needed = a.id == Id::kColorShiftHsl ? Shifts(coat.tips[0]) : a.id == Id::kSurfaceUv ? winding : true;
              if (r == Retain::kAll || needed) want.push_back(a.id);
            }
            std::vector<Id> got;
            for (auto a : copy.GetShape().RenderGroupFormat(k).Attributes()) got.push_back(a.id);
            PROP(got == want, "copy-attributes", got.size(), " attributes, expected ", want.size());
          }
        }
        if (c.Chance(1, 2)) {
          copies.push_back({copy, Of(copy)});
          ++updates;
        }
        check("copy", false);
        break;
      }
      case 6: {
        s->Clear();
        m = Model{};
        dry = false;
        c.Note("clear");
        check("clear", true);
        PROP(!region, "clear-region");
        break;
      }
      case 7: {  // the object moves to another place
        if (c.Bool()) {
          auto t = std::make_unique<InProgressStroke>(std::move(*s));
          s = std::move(t);
        } else {
          auto t = std::make_unique<InProgressStroke>();
          if (c.Bool()) t->Start(g.OneBrush(w));
          *t = std::move(*s);
          s = std::move(t);
        }
        c.Note("move");
        check("move", false);
        break;
      }
    }
  }
  if (updates > 0 && n > 2) c.NonTrivial();
}

PBT(Extrusion, 3, "at least three updates in a row show geometry") { ew::Extrusion(c, true); }
