#ifndef VERIF_HARNESS_TIPWALK_H_
#define VERIF_HARNESS_TIPWALK_H_
// Tip states along a stroke: what is fixed stays, updates agree with starting over, particles keep their gaps.
#include "harness/tipref.h"

// Like a stroke seen for the first time: every state against the reference.
inline void WalkReference(Ctx& c) {
  World w = Make(c, c.Chance(1, 2));
  State st = At(w, w.in, 0, w.in.size(), w.in.back().elapsed_time.ToSeconds() + (c.Bool() ? 0 : 0.0625f * c.Choice(32)));
  BrushTipModeler m;
  m.StartStroke(&w.tip, w.size);
  m.UpdateStroke(st, w.in);
  Reference r = Run(w.tip, w.size, st, w.in);
  List got = Of(m.VolatileTipStates());
  PROP(m.NewFixedTipStates().empty(), "fixed", "without stable inputs ", m.NewFixedTipStates().size(), " states are fixed");
  if (r.close) throw pbt::Discard{};
  PROP(got.size() == r.out.size(), "count", got.size(), " states, expected ", r.out.size());
  for (size_t k = 0; k < got.size(); ++k) {
    if (w.particles && k % 2) {
      PROP(got[k].width == 0 && got[k].height == 0, "gap", "state ", k, " should separate particles: ", tg::Show(got[k]));
    } else if (w.particles) {
      if (w.smooth) PROP(NearState(got[k], r.out[k], 2e-2) , "state", "state ", k, " is ", tg::Show(got[k]), " expected ", tg::Show(r.out[k]));
    } else {
      PROP(tg::Same(got[k], r.out[k]), "state", "state ", k, " is ", tg::Show(got[k]), " expected ", tg::Show(r.out[k]));
    }
  }
  // Time goes on changing the stroke exactly as long as announced.
  float bound = 0;
  for (auto& b : w.tip.behaviors) for (auto& n : b.nodes) if (IsSource(n, "kTimeSince")) {
    auto& s = std::get<BB::SourceNode>(n);
    bound = std::max(bound, std::max(s.source_value_range[0], s.source_value_range[1]) / (s.source == BB::Source::kTimeSinceInputInMillis ? 1000 : 1));
  }
  float since = st.complete_elapsed_time.ToSeconds() - w.in.back().elapsed_time.ToSeconds();
  bool unfinished = m.HasUnfinishedTimeBehaviors(st);
  if (std::fabs(since - bound) > 1e-5f) PROP(unfinished == (since < bound), "unfinished", since, " after the last input, behaviors end at ", bound, ", unfinished: ", unfinished);
  if (!unfinished) {
    State later = st;
    later.complete_elapsed_time = st.complete_elapsed_time + Duration32::Seconds(0.25f * c.Int(1, 8));
    BrushTipModeler m2;
    m2.StartStroke(&w.tip, w.size);
    m2.UpdateStroke(later, w.in);
    List l = Of(m2.VolatileTipStates());
    PROP(l.size() == got.size(), "finished", "later there are ", l.size(), " states instead of ", got.size());
    for (size_t k = 0; k < l.size(); ++k) if (!(w.particles && w.against_end)) PROP(tg::Same(l[k], got[k]), "finished", "state ", k, " changed with time from ", tg::Show(got[k]), " to ", tg::Show(l[k]));
  }
  if (got.size() >= 3) c.NonTrivial();
}

// Update after update: what is fixed stays, and the result is that of starting over.
inline void WalkIncrements(Ctx& c) {
  World w = Make(c, c.Chance(1, 3));
  BrushTipModeler m;
  if (c.Chance(1, 3)) {  // used before for another stroke
    World o = Make(c, c.Bool());
    m.StartStroke(&o.tip, o.size);
    m.UpdateStroke(At(o, o.in, o.in.size() / 2, o.in.size(), o.in.back().elapsed_time.ToSeconds()), o.in);
    if (c.Bool()) m.UpdateStroke(At(o, o.in, o.in.size(), o.in.size(), o.in.back().elapsed_time.ToSeconds()), o.in);
    m.StartStroke(&w.tip, w.size);
    PROP(m.NewFixedTipStates().empty() && m.VolatileTipStates().empty(), "start", "states of the last stroke are left");
  } else {
    m.StartStroke(&w.tip, w.size);
  }
  Gen g{c};
  int n = w.in.size(), stable = 0, updates = c.Int(1, 6), useful = 0;
  float now = 0;
  List fixed;
  for (int u = 0; u <= updates; ++u) {
    bool last = u == updates;
    stable = last ? c.Int(stable, n) : c.Int(stable, n);
    std::vector<ModeledStrokeInput> in(w.in.begin(), w.in.begin() + stable);
    if (last) {
      in = w.in;
    } else {  // unstable inputs that will not be there next time
      auto tail = g.Run(w.kind, c.Len(0, 4));
      float d0 = in.empty() ? 0 : in.back().traveled_distance, t0 = in.empty() ? 0 : in.back().elapsed_time.ToSeconds();
      for (auto i : tail) {
        i.traveled_distance = w.remaining ? d0 + 0.125f * std::round(8 * i.traveled_distance) : d0 + i.traveled_distance;
        i.elapsed_time = Duration32::Seconds(w.remaining ? t0 + 0.0625f * std::round(16 * i.elapsed_time.ToSeconds()) : t0 + i.elapsed_time.ToSeconds());
        in.push_back(i);
      }
    }
    int real = c.Int(stable, (int)in.size());
    now = std::max(now, in.empty() ? 0.f : in.back().elapsed_time.ToSeconds()) + (c.Bool() ? 0 : 0.0625f * c.Choice(8));
    State st = At(w, in, stable, real, now);
    c.Note("update", u, "stable", stable, "real", real, "of", in.size(), "now", now);
    for (size_t k = stable; k < in.size(); ++k) c.Note("unstable", tg::Show(in[k]));
    m.UpdateStroke(st, in);
    List f = Of(m.NewFixedTipStates()), v = Of(m.VolatileTipStates());
    fixed.insert(fixed.end(), f.begin(), f.end());
    List all = fixed;
    all.insert(all.end(), v.begin(), v.end());
    // The same inputs in one go, to a fresh modeler that may fix nothing.
    State s0 = st;
    s0.stable_input_count = 0;
    BrushTipModeler fresh;
    fresh.StartStroke(&w.tip, w.size);
    fresh.UpdateStroke(s0, in);
    List want = Of(fresh.VolatileTipStates());
    PROP(all.size() == want.size(), "incremental-count", "update ", u, ": ", fixed.size(), " fixed and ", v.size(), " volatile states, all at once ", want.size());
    // Interpolated particles are off by rounding; a source that measures against the end of the stroke can amplify that.
    for (size_t k = 0; k < all.size(); ++k)
      if (!(w.particles && w.against_end)) PROP(tg::Same(all[k], want[k]), k < fixed.size() ? "fixed-differs" : "volatile-differs", "update ", u, " state ", k, ": ", tg::Show(all[k]), " all at once: ", tg::Show(want[k]));
    if (!f.empty() && !v.empty()) ++useful;
    // Without anything that looks ahead, all that is stable is fixed.
    bool ahead = w.remaining || w.direction;
    for (auto& b : w.tip.behaviors) for (auto& x : b.nodes) if (auto* t = std::get_if<BB::TargetNode>(&x)) ahead = ahead || (int)t->target == 9 || (int)t->target == 10;
    if (!ahead && !w.particles) PROP((int)fixed.size() == stable, "fixed-late", "of ", stable, " stable inputs only ", fixed.size(), " made fixed states");
  }
  if (useful >= 2) c.NonTrivial();
}
#endif
