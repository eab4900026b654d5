// Behavior nodes and targets against their documentation.
#include <string>
#include <vector>

#include "engine/pbt.h"
#include "harness/tipwalk.h"

PBT(nodes, 20, "some node had a missing operand and some target took a value") {
  Gen g{c};
  bg::Gen b{c, 0, true};
  auto kind = g.AnyKind();
  int n = c.Len(1, 8);
  auto in = g.Run(kind, n);
  std::vector<BB> bs;
  int nb = c.Len(1, 3);
  for (int k = 0; k < nb; ++k) bs.push_back(b.Behavior(8));
  State st;
  st.tool_type = kind.tool;
  if (kind.unit > 0) st.stroke_unit_length = PhysicalDistance::Centimeters(kind.unit);
  int real = c.Int(0, n);
  st.real_input_count = real;
  if (real) st.total_real_distance = in[real - 1].traveled_distance, st.total_real_elapsed_time = in[real - 1].elapsed_time;
  st.complete_traveled_distance = in.back().traveled_distance;
  st.complete_elapsed_time = in.back().elapsed_time + Duration32::Seconds(c.Bool() ? 0.f : c.UniformF(0, 2));
  float size = c.PickOf<float>({1.f, 4.f, 0.25f, 10.f});
  c.Note("size", size, "tool", (int)st.tool_type, "unit", kind.unit, "real", real, "complete", st.complete_elapsed_time.ToSeconds());
  for (auto& i : in) c.Note("input", tg::Show(i));
  for (auto& x : bs) c.Note("behavior", absl::StrCat(x));
  Snapshot now;
  struct Node { const BB::Node* node; BehaviorNodeImplementation impl; int damping = -1, target = -1; };
  std::vector<Node> nodes;
  for (auto& x : bs) {
    for (auto& node : x.nodes) {
      Node y{&node, BB::ConstantNode{0}};
      switch (node.index()) {
        case 0: y.impl = std::get<0>(node); break;
        case 1: y.impl = std::get<1>(node); break;
        case 2: y.impl = std::get<2>(node); break;
        case 3: y.impl = std::get<3>(node); break;
        case 4:
          y.damping = now.damped.size();
          now.damped.push_back(ink::strokes_internal::kNullBehaviorNodeValue);
          y.impl = DampingNodeImplementation{(size_t)y.damping, std::get<4>(node).damping_source, std::get<4>(node).damping_gap};
          break;
        case 5: y.impl = EasingImplementation(std::get<5>(node).response_curve); break;
        case 6: y.impl = std::get<6>(node); break;
        case 7: y.impl = std::get<7>(node); break;
        default:
          y.target = now.modifiers.size();
          now.modifiers.push_back(Initial(std::get<8>(node).target));
          y.impl = TargetNodeImplementation{(size_t)y.target, std::get<8>(node).target_modifier_range};
      }
      nodes.push_back(std::move(y));
    }
  }
  bool missing = false, took = false;
  std::optional<InputMetrics> prev;
  for (size_t k = 0; k < in.size(); ++k) {
    std::optional<Angle> dir;
    if (c.Chance(3, 4)) dir = c.Bool() ? Angle::Radians(c.PickOf<float>({0.f, std::numbers::pi_v<float>, std::numbers::pi_v<float> / 2, -std::numbers::pi_v<float> / 2, -3.f})) : Angle::Radians(c.UniformF(-3.14f, 3.14f));
    c.Note("direction", dir ? dir->ValueInRadians() : -100.f);
    for (auto& y : nodes) {
      Snapshot before = now;
      BehaviorNodeContext ctx{.input_modeler_state = st, .current_input = in[k], .current_travel_direction = dir, .brush_size = size, .previous_input_metrics = prev, .stack = now.stack, .damped_values = absl::MakeSpan(now.damped), .target_modifiers = absl::MakeSpan(now.modifiers)};
      ProcessBehaviorNode(y.impl, ctx);
      CheckNode(*y.node, y.damping, y.target, before, now, in[k], dir, size, prev, st, std::get_if<EasingImplementation>(&y.impl));
      if (!before.stack.empty() && IsNull(before.stack.back())) missing = true;
      if (y.target >= 0 && now.modifiers[y.target] != before.modifiers[y.target]) took = true;
    }
    PROP(now.stack.empty(), "stack", "values left over");
    prev = InputMetrics{in[k].traveled_distance, in[k].elapsed_time};
  }
  if (missing && took) c.NonTrivial();
}

PBT(sources, 10, "the value was inside the source's range and not null") {
  Gen g{c};
  auto kind = g.AnyKind();
  if (c.Chance(3, 4)) kind.pressure = kind.tilt = kind.orientation = true, kind.unit = kind.unit == 0 ? 1 : kind.unit;
  int n = c.Len(1, 4);
  auto in = g.Run(kind, n);
  int at = c.Int(0, n - 1), real = c.Int(0, n);
  State st;
  st.tool_type = kind.tool;
  if (kind.unit > 0) st.stroke_unit_length = PhysicalDistance::Centimeters(kind.unit);
  if (real) st.total_real_distance = in[real - 1].traveled_distance, st.total_real_elapsed_time = in[real - 1].elapsed_time;
  st.complete_traveled_distance = in.back().traveled_distance;
  st.complete_elapsed_time = in.back().elapsed_time + Duration32::Seconds(c.Bool() ? 0.f : c.UniformF(0, 2));
  float size = c.PickOf<float>({1.f, 4.f, 0.25f, 10.f});
  std::optional<Angle> dir;
  if (c.Chance(3, 4)) dir = Angle::Radians(c.UniformF(-3.14f, 3.14f));
  bg::Gen b{c, 0, true};
  BB::SourceNode s = b.Source();
  auto v = SourceValue(s.source, in[at], dir, size, st);
  if (v && c.Chance(3, 4)) {  // a range around the value
    float w = c.PickOf<float>({0.5f, 1.f, 8.f, 100.f}), x = (v->lo + v->hi) / 2 - w * c.UniformF(-0.5f, 1.5f);
    s.source_value_range = {x, x + w};
    if (s.source_value_range[0] == s.source_value_range[1]) throw pbt::Discard{};
    if (c.Bool()) std::swap(s.source_value_range[0], s.source_value_range[1]);
  }
  c.Note("node", absl::StrCat(BB::Node(s)), "input", tg::Show(in[at]), "size", size, "unit", kind.unit, "direction", dir ? dir->ValueInRadians() : -100.f);
  c.Note("real distance", st.total_real_distance, "real time", st.total_real_elapsed_time.ToSeconds(), "distance", st.complete_traveled_distance, "time", st.complete_elapsed_time.ToSeconds());
  Snapshot before, now;
  BehaviorNodeContext ctx{.input_modeler_state = st, .current_input = in[at], .current_travel_direction = dir, .brush_size = size, .previous_input_metrics = std::nullopt, .stack = now.stack, .damped_values = absl::MakeSpan(now.damped), .target_modifiers = absl::MakeSpan(now.modifiers)};
  ProcessBehaviorNode(s, ctx);
  CheckNode(s, -1, -1, before, now, in[at], dir, size, std::nullopt, st, nullptr);
  if (!IsNull(now.stack.back()) && now.stack.back() > 0 && now.stack.back() < 1) c.NonTrivial();
}

PBT(targets, 10, "at least two modifiers share a target") {
  bg::Gen b{c, 0, true};
  BrushTip tip = b.Tip(0);
  float size = c.PickOf<float>({1.f, 4.f, 0.25f, 10.f});
  Point pos = {c.UniformF(-20, 20), c.UniformF(-20, 20)};
  std::optional<Angle> dir;
  if (c.Chance(3, 4)) dir = Angle::Radians(c.UniformF(-3.14f, 3.14f));
  std::vector<BB::Target> t;
  std::vector<float> m;
  int n = c.Len(0, 8), only = c.Int(0, 14);
  bool shared = false;
  for (int k = 0; k < n; ++k) {
    t.push_back((BB::Target)(c.Bool() ? only : c.Int(0, 14)));
    for (int j = 0; j < k; ++j) if (t[j] == t[k]) shared = true;
    m.push_back(c.Chance(1, 3) ? c.PickOf<float>({0.f, 1.f, -1.f, 2.f, 0.5f, 3.f}) : c.Chance(1, 4) ? c.UniformF(-20, 20) : c.UniformF(-2, 2));
    c.Note(bg::kTargetNames[(int)t[k]], m[k]);
  }
  c.Note("tip", absl::StrCat(tip), "size", size, "at", pos, "direction", dir ? dir->ValueInRadians() : -100.f);
  BrushTipState s = ink::strokes_internal::CreateTipState(pos, dir, tip, size, t, m);
  CheckTip(s, pos, dir, tip, size, t, m);
  // Order does not matter.
  for (int k = n - 1; k > 0; --k) {
    int j = c.Choice(k);
    std::swap(t[k], t[j]), std::swap(m[k], m[j]);
  }
  BrushTipState r = ink::strokes_internal::CreateTipState(pos, dir, tip, size, t, m);
  CheckTip(r, pos, dir, tip, size, t, m);
  if (shared) c.NonTrivial();
}

PBT(lerp, 3, "both inputs report every property") {
  Gen g{c};
  auto kind = g.AnyKind();
  auto v = g.Run(kind, 2);
  float t = c.Chance(1, 3) ? c.PickOf<float>({0.f, 1.f, 0.5f}) : c.UniformF(0, 1);
  c.Note("a", tg::Show(v[0]), "b", tg::Show(v[1]), "t", t);
  auto x = Lerp(v[0], v[1], t);
  auto near = [&](const char* what, double a, double b, double got) { PROP(pbt::Near(got, a + (b - a) * t, 4e-6 * (std::fabs(a) + std::fabs(b)) + 1e-7), what, what, " is ", got, " between ", a, " and ", b); };
  near("x", v[0].position.x, v[1].position.x, x.position.x), near("y", v[0].position.y, v[1].position.y, x.position.y);
  near("velocity", v[0].velocity.x, v[1].velocity.x, x.velocity.x), near("velocity", v[0].velocity.y, v[1].velocity.y, x.velocity.y);
  near("acceleration", v[0].acceleration.x, v[1].acceleration.x, x.acceleration.x), near("acceleration", v[0].acceleration.y, v[1].acceleration.y, x.acceleration.y);
  near("distance", v[0].traveled_distance, v[1].traveled_distance, x.traveled_distance);
  near("time", v[0].elapsed_time.ToSeconds(), v[1].elapsed_time.ToSeconds(), x.elapsed_time.ToSeconds());
  if (kind.pressure) near("pressure", v[0].pressure, v[1].pressure, x.pressure);
  else PROP(x.pressure == -1, "missing", "pressure appeared");
  if (kind.tilt) near("tilt", v[0].tilt.ValueInRadians(), v[1].tilt.ValueInRadians(), x.tilt.ValueInRadians());
  else PROP(x.tilt == StrokeInput::kNoTilt, "missing", "tilt appeared: ", x.tilt.ValueInRadians());
  if (!kind.orientation) {
    PROP(x.orientation == StrokeInput::kNoOrientation, "missing", "orientation appeared: ", x.orientation.ValueInRadians());
  } else {
    double a = v[0].orientation.ValueInRadians(), b = v[1].orientation.ValueInRadians(), d = std::remainder(b - a, 2 * kPi);
    double e1 = std::fabs(std::remainder(x.orientation.ValueInRadians() - (a + d * t), 2 * kPi)), e2 = std::fabs(std::remainder(x.orientation.ValueInRadians() - (a - d * t), 2 * kPi));
    PROP(e1 <= 1e-5 || (std::fabs(std::fabs(d) - kPi) < 1e-5 && e2 <= 1e-5), "orientation", "orientation ", x.orientation.ValueInRadians(), " at ", t, " between ", a, " and ", b, " the short way");
  }
  if (kind.pressure && kind.tilt && kind.orientation) c.NonTrivial();
}

PBT(extremes, 6, "some value in the graph overflowed to nothing") {
  // Any valid numbers at all: values stay finite or missing, modifiers stay finite.
  Gen g{c};
  bg::Gen b{c, 0, false};
  auto kind = g.AnyKind();
  int n = c.Len(1, 4);
  auto in = g.Run(kind, n);
  BB x = b.Behavior(8);
  State st;
  st.tool_type = kind.tool;
  if (kind.unit > 0) st.stroke_unit_length = PhysicalDistance::Centimeters(kind.unit);
  st.complete_traveled_distance = in.back().traveled_distance;
  st.complete_elapsed_time = in.back().elapsed_time;
  float size = c.PickOf<float>({1.f, 0.25f, 10.f});
  c.Note("behavior", absl::StrCat(x), "size", size);
  for (auto& i : in) c.Note("input", tg::Show(i));
  Snapshot now;
  std::optional<InputMetrics> prev;
  bool lost = false;
  for (size_t k = 0; k < in.size(); ++k) {
    size_t damping = 0, target = 0;
    for (auto& node : x.nodes) {
      BehaviorNodeImplementation impl = BB::ConstantNode{0};
      if (auto* y = std::get_if<BB::SourceNode>(&node)) impl = *y;
      else if (auto* y = std::get_if<BB::ConstantNode>(&node)) impl = *y;
      else if (auto* y = std::get_if<BB::FallbackFilterNode>(&node)) impl = *y;
      else if (auto* y = std::get_if<BB::ToolTypeFilterNode>(&node)) impl = *y;
      else if (auto* y = std::get_if<BB::ResponseNode>(&node)) impl = EasingImplementation(y->response_curve);
      else if (auto* y = std::get_if<BB::BinaryOpNode>(&node)) impl = *y;
      else if (auto* y = std::get_if<BB::InterpolationNode>(&node)) impl = *y;
      else if (auto* y = std::get_if<BB::DampingNode>(&node)) {
        if (damping == now.damped.size()) now.damped.push_back(ink::strokes_internal::kNullBehaviorNodeValue);
        impl = DampingNodeImplementation{damping++, y->damping_source, y->damping_gap};
      } else {
        if (target == now.modifiers.size()) now.modifiers.push_back(1);
        impl = TargetNodeImplementation{target++, std::get<BB::TargetNode>(node).target_modifier_range};
      }
      bool all = true;
      for (float v : now.stack) all = all && !IsNull(v);
      BehaviorNodeContext ctx{.input_modeler_state = st, .current_input = in[k], .current_travel_direction = std::nullopt, .brush_size = size, .previous_input_metrics = prev, .stack = now.stack, .damped_values = absl::MakeSpan(now.damped), .target_modifiers = absl::MakeSpan(now.modifiers)};
      ProcessBehaviorNode(impl, ctx);
      if (all && !now.stack.empty() && IsNull(now.stack.back()) && node.index() > 3) lost = true;
      for (float v : now.stack) PROP(IsNull(v) || bg::Fin(v), "finite", "a node gave ", v);
      for (float v : now.modifiers) PROP(bg::Fin(v), "finite", "a modifier is ", v);
    }
    prev = InputMetrics{in[k].traveled_distance, in[k].elapsed_time};
  }
  if (lost) c.NonTrivial();
}

PBT(whole, 4, "a behavior changed some state along the stroke") {
  // All behaviors of a tip over a whole stroke, node by node in the given order.
  World w = Make(c, false);
  int real = c.Bool() ? w.in.size() : c.Int(0, (int)w.in.size());
  State st = At(w, w.in, 0, real, w.in.back().elapsed_time.ToSeconds() + (c.Bool() ? 0 : 0.0625f * c.Choice(32)));
  BrushTipModeler m;
  m.StartStroke(&w.tip, w.size);
  m.UpdateStroke(st, w.in);
  Reference r = Run(w.tip, w.size, st, w.in);
  List got = Of(m.VolatileTipStates());
  PROP(got.size() == r.out.size(), "whole-count", got.size(), " states, expected ", r.out.size());
  BrushTip plain = w.tip;
  plain.behaviors.clear();
  Reference p = Run(plain, w.size, st, w.in);
  for (size_t k = 0; k < got.size(); ++k) {
    PROP(tg::Same(got[k], r.out[k]), "whole", "state ", k, " is ", tg::Show(got[k]), " expected ", tg::Show(r.out[k]));
    if (!tg::Same(got[k], p.out[k])) c.NonTrivial();
  }
}

// The same behaviors with particles, and as a stroke grows.
PBT(particles, 4, "at least three states were made") { WalkReference(c); }

PBT(growing, 5, "at least two updates fixed some states while others stayed volatile") { WalkIncrements(c); }
