// A finished stroke: its shape is what its brush and inputs give, whatever it and other strokes were before.
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "engine/pbt.h"
#include "harness/strokegen.h"
#include "harness/strokepic.h"
#include "ink/strokes/stroke.h"

using namespace sg;
using ink::PartitionedMesh;
using pbt::Ctx;

namespace {
Inputs operator+(Inputs a, const Inputs& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
// The stroke that a thread without any history makes of this.
Picture Fresh(const Brush& b, const Inputs& v) {
  std::optional<Picture> p;
  StrokeInputBatch in = Batch(v);
  std::thread([&] { p = Of(Stroke(b, in)); }).join();
  return *p;
}
struct Model {
  Brush brush;
  Inputs inputs;
  Picture shape;
};
bool Folded(const InProgressStroke& s) {
  using V = ink::strokes_internal::StrokeVertex;
  for (uint32_t k = 0; k < s.BrushCoatCount(); ++k)
    for (uint32_t v = 0; v < s.GetMesh(k).VertexCount(); ++v)
      if (V::GetSideLabelFromMesh(s.GetMesh(k), v).DecodeSideCategory() == V::SideCategory::kInterior) return true;
  return false;
}
}  // namespace

PBT(Setters, 3, "a stroke with geometry is changed at least twice") {
  Gen g{c};
  Want w;
  w.max_coats = 3;
  w.behaviors = 2;
  struct One {
    std::unique_ptr<Stroke> s;
    Brush brush;
    Inputs inputs;
    Picture shape;
  };
  std::vector<One> all;
  auto inputs = [&]() -> Inputs {
    if (c.Chance(1, 8)) return {};
    Gen::Pen p;
    auto f = ig::Gen{c}.Fmt();
    return g.Path(p, f, 3, c.Len(1, 6));
  };
  auto check = [&](const char* op) {
    for (size_t k = 0; k < all.size(); ++k) {
      auto& o = all[k];
      PROP(SameBrush(o.s->GetBrush(), o.brush), "brush", op, ", stroke ", k, ": ", o.s->GetBrush());
      PROP(o.s->GetBrushFamily().GetCoats().size() == o.brush.CoatCount(), "family", op);
      PROP(SameInputs(o.s->GetInputs(), o.inputs), "inputs", op, ", stroke ", k, ": has ", o.s->GetInputs().Size(), ", expected ", o.inputs.size());
      PROP(o.s->GetInputDuration() == Batch(o.inputs).GetDuration(), "duration", op);
      PROP(o.s->GetShape().RenderGroupCount() == o.brush.CoatCount(), "groups", op, ": ", o.s->GetShape().RenderGroupCount());
      PROP(SameShape(Of(*o.s), o.shape), "shape", op, ", stroke ", k);
    }
  };
  int n = c.Len(1, 7), changed = 0;
  for (int step = 0; step < n; ++step) {
    int op = all.empty() ? 0 : c.Weighted({2, 2, 2, 1, 2, 2, 2, 2, 1});
    size_t at = all.empty() ? 0 : c.Choice(all.size() - 1);
    auto fresh = [&](One& o) {
      Picture before = o.shape;
      o.shape = Fresh(o.brush, o.inputs);
      if (!SameShape(before, o.shape)) ++changed;
    };
    if (op == 0) {  // a new stroke
      if (all.size() >= 3) all.erase(all.begin());
      Brush b = g.OneBrush(w);
      Inputs v = inputs();
      c.Note("new: ", b, " ", pbt::Show(v));
      if (c.Chance(1, 5)) all.push_back({std::make_unique<Stroke>(b), b, {}, {}});
      else if (c.Chance(1, 4) && !all.empty() && all[at % all.size()].brush.CoatCount() == b.CoatCount()) {
        auto& o = all[at % all.size()];
        auto s = std::make_unique<Stroke>(b, Batch(v), o.s->GetShape());
        Picture p = o.shape;
        all.push_back({std::move(s), b, v, p});
        c.Note("with the shape of ", at);
        check("new with shape");
        continue;
      } else all.push_back({std::make_unique<Stroke>(b, Batch(v)), b, v, {}});
      fresh(all.back());
      check("new");
      continue;
    }
    auto& o = all[at];
    switch (op) {
      case 1: {  // brush and inputs
        Brush b = c.Chance(1, 4) ? o.brush : g.OneBrush(w);
        Inputs v = inputs();
        int how = c.Choice(3);
        c.Note("stroke ", at, " brush and inputs, ", how, ": ", b, " ", pbt::Show(v));
        if (how == 0) o.s->SetBrushAndInputs(b, o.s->GetInputs()), v = o.inputs;
        else if (how == 1) o.s->SetBrushAndInputs(o.s->GetBrush(), Batch(v)), b = o.brush;
        else o.s->SetBrushAndInputs(b, Batch(v));
        o.brush = b, o.inputs = v;
        fresh(o);
        check("brush and inputs");
        break;
      }
      case 2: case 3: {  // brush or family
        Brush b = o.brush;
        switch (c.Choice(4)) {
          case 0: b = g.OneBrush(w); break;
          case 1: b.SetColor(g.Color()); break;
          case 2: {  // the same tips, other paint
            std::vector<BrushCoat> coats(o.brush.GetCoats().begin(), o.brush.GetCoats().end());
            for (auto& k : coats) k.paint = g.b.Paint(2);
            auto f = BrushFamily::Create(coats, "", o.brush.GetFamily().GetInputModel());
            if (f.ok()) b.SetFamily(*f);
            break;
          }
          case 3: {  // one tip changed, a coat more or less, or in another order
            std::vector<BrushCoat> coats(o.brush.GetCoats().begin(), o.brush.GetCoats().end());
            if (!coats.empty() && c.Bool()) coats[c.Choice(coats.size() - 1)].tips[0] = g.Tip(w);
            else if (c.Bool()) coats.push_back(g.Coat(w));
            else if (coats.size() > 1) std::swap(coats[0], coats[1]);
            else if (!coats.empty()) coats.pop_back();
            auto f = BrushFamily::Create(coats, "", o.brush.GetFamily().GetInputModel());
            if (f.ok()) b.SetFamily(*f);
            break;
          }
          case 4: {
            float size = g.Size();
            auto r = Brush::Create(o.brush.GetFamily(), o.brush.GetColor(), size, g.Epsilon(size));
            if (r.ok()) b = *r;
            break;
          }
        }
        if (op == 3) {
          Brush x = o.brush;
          x.SetFamily(b.GetFamily());
          b = x;
        }
        bool tips = b.CoatCount() != o.brush.CoatCount();
        for (uint32_t k = 0; !tips && k < b.CoatCount(); ++k) tips = !(b.GetCoats()[k].tips == o.brush.GetCoats()[k].tips);
        bool renew = tips || b.GetSize() != o.brush.GetSize() || b.GetEpsilon() != o.brush.GetEpsilon();
        c.Note("stroke ", at, op == 2 ? " brush " : " family ", b);
        if (op == 2) o.s->SetBrush(b);
        else o.s->SetBrushFamily(b.GetFamily());
        o.brush = b;
        if (renew) fresh(o);
        check(op == 2 ? "brush" : "family");
        if (c.Chance(1, 4)) {
          if (op == 2) o.s->SetBrush(o.s->GetBrush());
          else o.s->SetBrushFamily(o.s->GetBrushFamily());
          check("its own brush");
        }
        break;
      }
      case 4: case 5: {  // size or epsilon
        float now = op == 4 ? o.brush.GetSize() : o.brush.GetEpsilon();
        float x = c.PickOf({now * 2, now, now / 2, now * 8, op == 4 ? 0.0625f * o.brush.GetEpsilon() : now * 64, 0.f, -now, INFINITY, -INFINITY, NAN});
        // (tiny sizes give too many particles to be quick)
        if (x < (op == 4 ? 0.5f : 0.002f * o.brush.GetSize()) && x > o.brush.GetEpsilon() / (op == 4 ? 1 : 4)) x = now;
        bool ok = std::isfinite(x) && x > 0 && (op == 4 ? x >= o.brush.GetEpsilon() : x <= o.brush.GetSize());
        c.Note("stroke ", at, op == 4 ? " size " : " epsilon ", x);
        auto st = op == 4 ? o.s->SetBrushSize(x) : o.s->SetBrushEpsilon(x);
        PROP(st.ok() == ok, op == 4 ? "size" : "epsilon", x, ": ", st);
        if (ok && x != now) {
          PROP((op == 4 ? o.brush.SetSize(x) : o.brush.SetEpsilon(x)).ok(), "brush-setter");
          fresh(o);
        }
        check(op == 4 ? "size" : "epsilon");
        break;
      }
      case 6: {  // color
        auto col = g.Color();
        c.Note("stroke ", at, " color");
        o.s->SetBrushColor(col);
        o.brush.SetColor(col);
        check("color");
        break;
      }
      case 7: {  // inputs
        if (c.Chance(1, 5)) {
          c.Note("stroke ", at, " its own inputs");
          o.s->SetInputs(o.s->GetInputs());
        } else if (c.Chance(1, 5)) {
          size_t other = c.Choice(all.size() - 1);
          c.Note("stroke ", at, " the inputs of ", other);
          o.s->SetInputs(all[other].s->GetInputs());
          o.inputs = all[other].inputs;
        } else {
          o.inputs = inputs();
          c.Note("stroke ", at, " inputs ", pbt::Show(o.inputs));
          o.s->SetInputs(Batch(o.inputs));
        }
        fresh(o);
        check("inputs");
        break;
      }
      case 8: {  // copies
        size_t other = c.Choice(all.size() - 1);
        int how = c.Choice(2);
        c.Note("stroke ", at, " copy ", how, " from ", other);
        if (how == 0) {
          if (all.size() >= 3) break;
          auto s = std::make_unique<Stroke>(*o.s);
          Brush b = o.brush;
          Inputs v = o.inputs;
          Picture p = o.shape;
          all.push_back({std::move(s), b, v, p});
        } else if (how == 1) {
          *o.s = *all[other].s;
          o.brush = all[other].brush, o.inputs = all[other].inputs, o.shape = all[other].shape;
        } else {
          auto s = std::make_unique<Stroke>(std::move(*o.s));
          o.s = std::move(s);
        }
        check("copy");
        break;
      }
    }
  }
  if (changed > 2) c.NonTrivial();
}

// A stroke made at once is the stroke drawn step by step.
PBT(Drawn, 1, "geometry from at least three inputs") {
  Gen g{c};
  Want w;
  w.max_coats = 2;
  w.tame = true;
  bool gentle = c.Chance(1, 2);
  if (gentle) w.behaviors = 0, w.max_coats = 1;
  Brush b = g.OneBrush(w);
  auto f = ig::Gen{c}.Fmt();
  Gen::Pen pen;
  Inputs v;
  InProgressStroke s;
  s.Start(b);
  bool folded = false;
  for (int n = c.Len(1, 4); n > 0; --n) {
    Inputs more = g.Path(pen, f, b.GetSize(), c.Len(1, 5), gentle);
    v = v + more;
    PROP(s.EnqueueInputs(Batch(more), {}).ok(), "enqueue");
    if (n == 1) s.FinishInputs();
    // at most the time the stroke will end with, as sources may look at it
    if (n == 1 || c.Bool()) {
      PROP(s.UpdateShape(n == 1 ? Batch(v).GetDuration() : Duration32::Zero()).ok(), "update");
      folded |= Folded(s);
    }
  }
  c.Note(b, " ", pbt::Show(v));
  Stroke t(b, Batch(v)), u = s.CopyToStroke();
  Picture x = Of(t), y = Of(u);
  if (v.size() > 2 && !x.bytes.empty()) c.NonTrivial();
  PROP(x.shape == y.shape, "drawn-outlines", x.shape.substr(0, 200), " / ", y.shape.substr(0, 200));
  PROP(x.bytes.size() == y.bytes.size(), "drawn-meshes");
  for (size_t k = 0; k < x.bytes.size(); ++k) { PROP(x.bytes[k].size() == y.bytes[k].size(), "drawn-size", k); }
  for (uint32_t k = 0; k < b.CoatCount(); ++k)
    for (size_t m = 0; m < t.GetShape().RenderGroupMeshes(k).size(); ++m) {
      auto &p = t.GetShape().RenderGroupMeshes(k)[m], &q = u.GetShape().RenderGroupMeshes(k)[m];
      for (uint32_t i = 0; i < p.VertexCount(); ++i) PROP(p.VertexPosition(i) == q.VertexPosition(i), "drawn-position", "vertex ", i, ": ", p.VertexPosition(i), " / ", q.VertexPosition(i));
      for (uint32_t i = 0; i < p.TriangleCount(); ++i) PROP(p.TriangleIndices(i) == q.TriangleIndices(i), "drawn-triangle", i);
    }
  // Where the outline folds, the derivatives used for smooth edges depend on the steps.
  if (gentle && !folded) PROP(x.bytes == y.bytes, "drawn-attributes");
}
