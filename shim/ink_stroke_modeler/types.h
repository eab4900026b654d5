// Stand-in for the parts of ink-stroke-modeler that ink uses (the library itself is not available offline).
#pragma once
#include <vector>
#include "absl/status/status.h"
namespace ink::stroke_model {
struct Vec2 {
  float x = 0, y = 0;
  friend bool operator==(Vec2 a, Vec2 b) { return a.x == b.x && a.y == b.y; }
};
class Duration {
 public:
  constexpr Duration() = default;
  constexpr explicit Duration(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
 private:
  double v_ = 0;
};
class Time {
 public:
  constexpr Time() = default;
  constexpr explicit Time(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
 private:
  double v_ = 0;
};
struct Input {
  enum class EventType { kDown, kMove, kUp };
  EventType event_type = EventType::kDown;
  Vec2 position{0};
  Time time{0};
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
};
struct Result {
  Vec2 position{0};
  Vec2 velocity{0};
  Vec2 acceleration{0};
  Time time{0};
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
};
}  // namespace ink::stroke_model
