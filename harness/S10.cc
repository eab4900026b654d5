// Modeled inputs: whatever updates led there, they are those of all real inputs and the last prediction fed in one go.
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/inputgen.h"
#include "ink/strokes/internal/stroke_input_modeler.h"

using namespace ink;
using pbt::Ctx;
using ink::strokes_internal::ModeledStrokeInput;
using ink::strokes_internal::StrokeInputModeler;
namespace sm = ink::stroke_model;

namespace {
bool Same(const ModeledStrokeInput& a, const ModeledStrokeInput& b) {
  return a.position == b.position && a.velocity == b.velocity && a.acceleration == b.acceleration && a.traveled_distance == b.traveled_distance && a.elapsed_time == b.elapsed_time && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
std::string Show(const ModeledStrokeInput& m) {
  return absl::StrCat("(", m.position.x, ", ", m.position.y, ") t=", m.elapsed_time.ToSeconds(), " d=", m.traveled_distance, " v=", m.velocity.x, ",", m.velocity.y, " a=", m.acceleration.x, ",", m.acceleration.y, " p=", m.pressure, " tilt=", m.tilt.ValueInRadians(), " o=", m.orientation.ValueInRadians());
}

// The modeler fed with the inputs one after another; those too close to the last kept one are dropped.
struct Fed {
  sm::StrokeModeler m;
  std::vector<ModeledStrokeInput> out;
  bool first = true;
  float eps;
  void Add(const StrokeInput& i, bool up) {
    std::vector<sm::Result> r;
    auto s = m.Update({.event_type = first ? sm::Input::EventType::kDown : up ? sm::Input::EventType::kUp : sm::Input::EventType::kMove, .position = {i.position.x, i.position.y}, .time = sm::Time(i.elapsed_time.ToSeconds()), .pressure = i.pressure, .tilt = i.tilt.ValueInRadians(), .orientation = i.orientation.ValueInRadians()}, r);
    PROP(s.ok(), "harness", "the stand-in refused an input: ", s.ToString());
    first = false;
    for (auto& x : r) {
      Point p = {x.position.x, x.position.y};
      float d = 0;
      if (!out.empty()) {
        float step = (p - out.back().position).Magnitude();
        if (step < eps) continue;
        d = out.back().traveled_distance + step;
      }
      out.push_back({.position = p, .velocity = {x.velocity.x, x.velocity.y}, .acceleration = {x.acceleration.x, x.acceleration.y}, .traveled_distance = d, .elapsed_time = Duration32::Seconds(x.time.Value()), .pressure = x.pressure, .tilt = Angle::Radians(x.tilt), .orientation = Angle::Radians(x.orientation)});
    }
  }
};
StrokeInputBatch Batch(const std::vector<StrokeInput>& v, size_t from, size_t to) {
  StrokeInputBatch b;
  for (size_t k = from; k < to; ++k) PROP(b.Append(v[k]).ok(), "harness", "input ", k, " refused");
  return b;
}
std::vector<StrokeInput> Line(Ctx& c, const ig::Gen::Format& f, int n, float t, Point p) {
  std::vector<StrokeInput> v;
  ig::Gen g{c};
  for (int k = 0; k < n; ++k) {
    StrokeInput i = g.One(f, t);
    if (c.Chance(4, 5)) {
      float step = c.PickOf<float>({0.f, 0.01f, 0.1f, 1.f, 5.f});
      p = {p.x + step * c.UniformF(-1, 1), p.y + step * c.UniformF(-1, 1)};
      i.position = p;
    } else {
      p = i.position;
    }
    v.push_back(i);
    t += c.Chance(1, 6) ? 0.f : c.PickOf<float>({0.001f, 0.004f, 0.016f, 0.05f, 0.2f});
  }
  return v;
}
}  // namespace

PBT(Updates, 1, "three or more updates with new inputs, and a prediction was replaced") {
  static StrokeInputModeler kept;
  StrokeInputModeler fresh;
  bool reuse = c.Chance(1, 3);
  StrokeInputModeler& m = reuse ? kept : fresh;
  ig::Gen g{c};
  auto f = g.Fmt();
  float eps = c.PickOf<float>({0.01f, 0.1f, 0.5f, 2.f});
  bool v2 = c.Bool();
  BrushFamily::InputModel model = v2 ? BrushFamily::InputModel(BrushFamily::SpringModelV2{}) : BrushFamily::InputModel(BrushFamily::SpringModelV1{});
  c.Note("epsilon", eps, "model", v2 ? 2 : 1, "tool", (int)f.tool, "unit", f.unit);
  m.StartStroke(model, eps);
  PROP(m.GetModeledInputs().empty(), "start", m.GetModeledInputs().size(), " modeled inputs at the start");
  PROP(m.GetState().tool_type == StrokeInput::ToolType::kUnknown && !m.GetState().stroke_unit_length && m.GetState().stable_input_count == 0 && m.GetState().real_input_count == 0, "start", "state at the start");
  PROP(m.GetState().total_real_distance == 0 && m.GetState().complete_traveled_distance == 0 && m.GetState().complete_elapsed_time == Duration32::Zero() && m.GetState().total_real_elapsed_time == Duration32::Zero(), "start", "measures at the start");
  std::vector<StrokeInput> real;
  std::vector<ModeledStrokeInput> stable;
  bool predicted_before = false, replaced = false;
  int useful = 0;
  float now = 0;
  int n = c.Int(1, 7);
  for (int u = 0; u < n; ++u) {
    int nr = c.Chance(1, 4) ? 0 : c.Len(1, 4), np = c.Chance(1, 2) ? 0 : c.Len(1, 4);
    auto next = Line(c, f, nr + np, real.empty() ? c.Chance(1, 2) ? 0 : 0.25f : real.back().elapsed_time.ToSeconds() + c.PickOf<float>({0.f, 0.004f, 0.016f}), real.empty() ? Point{0, 0} : real.back().position);
    std::vector<StrokeInput> all = real;
    all.insert(all.end(), next.begin(), next.end());
    if (ig::Ok(all) != true) {  // a repeated position and time
      std::vector<StrokeInput> ok = real;
      int kept_real = 0;
      for (size_t k = real.size(); k < all.size(); ++k)
        if (ok.empty() ? ig::Ok(all[k]) == true : (ig::Ok(all[k]) == true && ig::Follows(ok.back(), all[k]))) {
          ok.push_back(all[k]);
          if (k < real.size() + nr) ++kept_real;
        }
      all = ok, np = (int)(all.size() - real.size()) - kept_real, nr = kept_real;
    }
    StrokeInputBatch rb = Batch(all, real.size(), real.size() + nr), pb = Batch(all, real.size() + nr, all.size());
    now = c.Chance(1, 5) ? now : std::max(now, c.UniformF(0, 2));
    c.Note("update", u, "real", nr, "predicted", np, "now", now);
    for (size_t k = real.size(); k < all.size(); ++k) c.Note(k < real.size() + nr ? "real" : "predicted", absl::StrCat(all[k]));
    sm::StrokeModeler::LastParams() = {};
    m.ExtendStroke(rb, pb, Duration32::Seconds(now));
    bool model_set_up = real.empty() && !all.empty();
    real.insert(real.end(), all.begin() + real.size(), all.begin() + real.size() + nr);
    if (np && predicted_before) replaced = true;
    predicted_before = np > 0;
    if (nr) ++useful;
    const auto& st = m.GetState();
    auto span = m.GetModeledInputs();
    std::vector<ModeledStrokeInput> got(span.begin(), span.end());

    // What the modeler was asked for.
    if (model_set_up) {
      const sm::StrokeModelParams& p = sm::StrokeModeler::LastParams();
      PROP(p.sampling_params.min_output_rate > 0 && p.sampling_params.end_of_stroke_stopping_distance == eps, "params", "stops at ", p.sampling_params.end_of_stroke_stopping_distance);
      auto& loop = p.position_modeler_params.loop_contraction_mitigation_params;
      PROP(loop.is_enabled == (v2 && f.unit > 0), "loop", "loop mitigation ", loop.is_enabled, " for model ", v2 ? 2 : 1, " with unit ", f.unit);
      if (loop.is_enabled) PROP(loop.speed_lower_bound == 0 && pbt::Near(loop.speed_upper_bound, 25 / f.unit, 1e-3 / f.unit), "loop", "speeds ", loop.speed_lower_bound, " to ", loop.speed_upper_bound);
      PROP(p.stylus_state_modeler_params.use_stroke_normal_projection == v2, "projection", "normal projection ", p.stylus_state_modeler_params.use_stroke_normal_projection, " for model ", v2 ? 2 : 1);
      PROP(!p.wobble_smoother_params.is_enabled && p.prediction_params.index() == 2, "params", "wobble smoothing or prediction is on");
    }

    // The same in one go.
    Fed fed;
    fed.eps = eps;
    sm::StrokeModelParams p;
    p.sampling_params.min_output_rate = 180, p.sampling_params.end_of_stroke_stopping_distance = eps;
    PROP(fed.m.Reset(p).ok(), "harness", "reset");
    size_t fixed = 0, reals = 0;
    for (size_t k = 0; k < all.size(); ++k) {
      if (k + 1 == real.size()) fixed = fed.out.size();
      fed.Add(all[k], k + 1 == all.size());
      if (k + 1 == real.size()) reals = fed.out.size();
    }
    PROP(got.size() == fed.out.size(), "count", "update ", u, ": ", got.size(), " modeled inputs, in one go ", fed.out.size());
    for (size_t k = 0; k < got.size(); ++k) PROP(Same(got[k], fed.out[k]), "modeled", "update ", u, " input ", k, ": ", Show(got[k]), " in one go: ", Show(fed.out[k]));
    for (size_t k = 0; k < stable.size(); ++k) PROP(k < got.size() && Same(got[k], stable[k]), "stable", "stable input ", k, " changed");
    PROP(st.stable_input_count >= stable.size() && st.stable_input_count <= got.size(), "stable-count", st.stable_input_count, " stable of ", got.size(), ", before ", stable.size());
    PROP(st.stable_input_count == fixed, "stable-count", st.stable_input_count, " stable inputs, expected ", fixed);
    PROP(st.real_input_count == reals, "real-count", st.real_input_count, " of real inputs, expected ", reals);
    stable.assign(got.begin(), got.begin() + st.stable_input_count);
    PROP(st.tool_type == (all.empty() ? StrokeInput::ToolType::kUnknown : f.tool), "tool", "tool ", (int)st.tool_type);
    PROP(st.stroke_unit_length == (all.empty() || f.unit == 0 ? std::nullopt : std::optional(PhysicalDistance::Centimeters(f.unit))), "unit", "unit length ", st.stroke_unit_length ? st.stroke_unit_length->ToCentimeters() : -1.f);
    PROP(st.complete_elapsed_time.ToSeconds() == std::max(now, got.empty() ? 0.f : got.back().elapsed_time.ToSeconds()), "time", "complete time ", st.complete_elapsed_time.ToSeconds());
    PROP(st.complete_traveled_distance == (got.empty() ? 0 : got.back().traveled_distance), "distance", "complete distance ", st.complete_traveled_distance);
    PROP(st.total_real_distance == (reals ? got[reals - 1].traveled_distance : 0), "real-distance", "real distance ", st.total_real_distance);
    PROP(st.total_real_elapsed_time.ToSeconds() == (reals ? got[reals - 1].elapsed_time.ToSeconds() : 0), "real-time", "real time ", st.total_real_elapsed_time.ToSeconds());
  }
  if (useful >= 3 && replaced) c.NonTrivial();
}
