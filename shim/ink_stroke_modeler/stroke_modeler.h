// Stand-in modeler: a damped spring pulling a simulated tip towards the anchor, upsampled to
// `min_output_rate`. Deterministic, checks the same input rules as the real modeler (one down event
// first, times that do not go back, no duplicate input, nothing after the up event until restored).
#pragma once
#include <algorithm>
#include <cmath>
#include <optional>
#include "ink_stroke_modeler/params.h"
namespace ink::stroke_model {
class StrokeModeler {
 public:
  absl::Status Reset(const StrokeModelParams& p) {
    if (!(p.sampling_params.min_output_rate > 0) || !(p.sampling_params.end_of_stroke_stopping_distance > 0))
      return absl::InvalidArgumentError("sampling params");
    params_ = p;
    LastParams() = p;
    s_ = State();
    saved_.reset();
    ready_ = true;
    return absl::OkStatus();
  }
  // The parameters any modeler was last set up with, for checks that look at them.
  static StrokeModelParams& LastParams() { static thread_local StrokeModelParams p; return p; }
  absl::Status Reset() { return Reset(*params_); }
  absl::Status Update(const Input& in, std::vector<Result>& out) {
    if (!ready_) return absl::FailedPreconditionError("Reset not called");
    if (!(std::isfinite(in.position.x) && std::isfinite(in.position.y) && std::isfinite(in.time.Value())))
      return absl::InvalidArgumentError("non-finite input");
    if (in.event_type == Input::EventType::kDown) {
      if (s_.active) return absl::FailedPreconditionError("kDown during stroke");
      s_.active = true;
      s_.px = in.position.x; s_.py = in.position.y; s_.vx = s_.vy = 0; s_.last = in;
      out.push_back(Make(in.position.x, in.position.y, 0, 0, 0, 0, in.time.Value(), in));
      return absl::OkStatus();
    }
    if (!s_.active) return absl::FailedPreconditionError("no stroke in progress");
    if (in.time.Value() < s_.last.time.Value()) return absl::InvalidArgumentError("time went back");
    if (in.position == s_.last.position && in.time.Value() == s_.last.time.Value())
      return absl::InvalidArgumentError("duplicate input");
    double dt_total = in.time.Value() - s_.last.time.Value();
    int n = std::max(1, (int)std::min(1e9, std::ceil(dt_total * params_->sampling_params.min_output_rate)));
    if (n > params_->sampling_params.max_outputs_per_call) return absl::InvalidArgumentError("too many outputs");
    Input from = s_.last;
    for (int i = 1; i <= n; ++i) {
      double f = double(i) / n;
      Step(from.position.x + f * (double(in.position.x) - from.position.x),
           from.position.y + f * (double(in.position.y) - from.position.y), dt_total / n,
           from.time.Value() + f * dt_total, from, in, f, out);
    }
    s_.last = in;
    if (in.event_type == Input::EventType::kUp) {
      double dt = 1 / params_->sampling_params.min_output_rate;
      double t = in.time.Value();
      for (int i = 0; i < params_->sampling_params.end_of_stroke_max_iterations; ++i) {
        double dist = std::hypot(s_.px - in.position.x, s_.py - in.position.y);
        if (dist <= params_->sampling_params.end_of_stroke_stopping_distance) break;
        t += dt;
        Step(in.position.x, in.position.y, dt, t, in, in, 1, out);
      }
      s_.active = false;
    }
    return absl::OkStatus();
  }
  absl::Status Predict(std::vector<Result>&) { return absl::FailedPreconditionError("prediction disabled"); }
  void Save() { saved_ = s_; }
  void Restore() { if (saved_) s_ = *saved_; }
 private:
  struct State { bool active = false; double px = 0, py = 0, vx = 0, vy = 0; Input last; };
  static float Mix(float a, float b, double f) { return a < 0 || b < 0 ? -1.f : float(a + f * (double(b) - a)); }
  static float MixAngle(float a, float b, double f) {
    if (a < 0 || b < 0) return -1.f;
    double d = std::remainder(double(b) - a, 2 * M_PI), r = std::fmod(a + f * d, 2 * M_PI);
    if (r < 0) r += 2 * M_PI;
    float o = (float)r;
    return o >= (float)(2 * M_PI) ? 0.f : o;
  }
  static Result Make(double x, double y, double vx, double vy, double ax, double ay, double t, const Input& in) {
    return {.position = {(float)x, (float)y}, .velocity = {(float)vx, (float)vy}, .acceleration = {(float)ax, (float)ay},
            .time = Time(t), .pressure = in.pressure, .tilt = in.tilt, .orientation = in.orientation};
  }
  void Step(double tx, double ty, double dt, double t, const Input& a, const Input& b, double f, std::vector<Result>& out) {
    double k = params_->position_modeler_params.spring_mass_constant, c = params_->position_modeler_params.drag_constant;
    double ax = 0, ay = 0;
    if (dt > 0) {
      // Implicit step: unconditionally stable.
      double den = 1 + c * dt + dt * dt / k;
      double nvx = (s_.vx + dt * (tx - s_.px) / k) / den, nvy = (s_.vy + dt * (ty - s_.py) / k) / den;
      ax = (nvx - s_.vx) / dt; ay = (nvy - s_.vy) / dt;
      s_.vx = nvx; s_.vy = nvy;
      s_.px += dt * nvx; s_.py += dt * nvy;
    }
    Result r = Make(s_.px, s_.py, s_.vx, s_.vy, ax, ay, t, b);
    r.pressure = Mix(a.pressure, b.pressure, f);
    r.tilt = Mix(a.tilt, b.tilt, f);
    r.orientation = MixAngle(a.orientation, b.orientation, f);
    out.push_back(r);
  }
  std::optional<StrokeModelParams> params_;
  State s_;
  std::optional<State> saved_;
  bool ready_ = false;
};
}  // namespace ink::stroke_model
