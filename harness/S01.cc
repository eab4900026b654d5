// Batches of stroke inputs against a plain list, with copies that must stay independent.
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/inputgen.h"
#include "ink/geometry/affine_transform.h"
#include "ink/strokes/input/internal/stroke_input_validation_helpers.h"

using namespace ig;
using pbt::Ctx;
using List = std::vector<StrokeInput>;

namespace {
void Compare(const StrokeInputBatch& b, const List& m, const char* after) {
  PROP(b.Size() == m.size(), "size", after, ": size ", b.Size(), " expected ", m.size());
  PROP(b.IsEmpty() == m.empty(), "size", "emptiness");
  for (size_t k = 0; k < m.size(); ++k) PROP(Same(b.Get(k), m[k]), "get", after, ": input ", k, " is ", b.Get(k), " expected ", m[k]);
  size_t k = 0;
  for (const StrokeInput& i : b) {
    PROP(k < m.size(), "iterate", after, ": iteration runs past the end");
    PROP(Same(i, m[k]), "iterate", after, ": iterated input ", k, " is ", i, " expected ", m[k]);
    ++k;
  }
  PROP(k == m.size(), "iterate", after, ": iteration stopped at ", k, " of ", m.size());
  // Post-increment and arrow.
  if (m.size() >= 2) {
    auto it = b.begin(), old = it++;
    PROP(Same(*old, m[0]) && Same(*it, m[1]) && it != old && it->position == m[1].position, "iterator", after, ": iterators");
    PROP(old == b.begin() && (it == b.end()) == (m.size() == 1), "iterator", "iterator comparison");
  }
  StrokeInput d;  // the format of an empty batch is the default one
  const StrokeInput& f = m.empty() ? d : m[0];
  PROP(b.GetToolType() == f.tool_type, "format", after, ": tool type");
  PROP(b.HasStrokeUnitLength() == f.HasStrokeUnitLength() && b.HasPressure() == f.HasPressure() && b.HasTilt() == f.HasTilt() && b.HasOrientation() == f.HasOrientation(), "format", after, ": reported properties");
  auto u = b.GetStrokeUnitLength();
  PROP(u.has_value() == f.HasStrokeUnitLength() && (!u || *u == f.stroke_unit_length), "format", after, ": unit length");
  float want = m.empty() ? 0 : m.back().elapsed_time.ToSeconds() - m[0].elapsed_time.ToSeconds();
  PROP(b.GetDuration().ToSeconds() == want, "duration", after, ": duration ", b.GetDuration().ToSeconds(), " expected ", want);
}
void CheckStatus(const absl::Status& s, bool ok, const char* op) {
  PROP(s.ok() == ok, "status", op, ok ? " refused valid inputs: " : " took invalid inputs: ", s.ToString());
  if (!ok) PROP(s.code() == absl::StatusCode::kInvalidArgument, "code", op, ": ", s.ToString());
}
struct Slot { StrokeInputBatch b; List m; };
}  // namespace

PBT(history, 20, "a refused change came after at least two accepted ones, with copies alive") {
  Gen g{c, (unsigned)c.PickOf<int>({0, 6, 20})};
  std::vector<Slot> s(3);
  auto fmt = g.Fmt();
  int n = c.Len(1, 24), took = 0, refused = 0, copies = 0;
  for (int step = 0; step < n; ++step) {
    Slot& x = s[c.Choice(2)];
    if (c.Chance(1, 12)) fmt = g.Fmt();
    // Mostly continue in the format and at the time of the slot.
    Gen::Format f = fmt;
    if (!x.m.empty() && !c.Chance(1, 8)) f = {x.m[0].tool_type, x.m[0].stroke_unit_length.ToCentimeters(), x.m[0].HasPressure(), x.m[0].HasTilt(), x.m[0].HasOrientation()};
    float t = x.m.empty() ? (c.Bool() ? 0.f : 1.f) : x.m.back().elapsed_time.ToSeconds();
    // What is already there was accepted before; only the new inputs and the seam are judged.
    auto verdict = [&](const List& added) {
      auto o = Ok(added);
      if (!o) throw pbt::Discard{};
      return *o && (x.m.empty() || added.empty() || Follows(x.m.back(), added[0]));
    };
    switch (c.Weighted({6, 6, 3, 4, 3, 2, 3, 2, 1, 2, 1})) {
      case 0: {
        StrokeInput i = g.One(f, c.Chance(1, 10) ? std::max(0.f, t - 0.5f) : c.Chance(1, 4) ? t : t + 0.125f);
        if (!x.m.empty() && c.Chance(1, 10)) i.position = x.m.back().position;
        c.Note("append ", i, " to ", &x - &s[0]);
        List next = x.m;
        next.push_back(i);
        bool ok = verdict({i});
        CheckStatus(x.b.Append(i), ok, "append");
        if (ok) x.m = next, ++took; else ++refused;
        break;
      }
      case 1: {
        List run = g.Run(f, t + (c.Chance(1, 4) ? 0 : 0.25f), c.Len(0, 6));
        c.Note("append run ", run, " to ", &x - &s[0]);
        List next = x.m;
        next.insert(next.end(), run.begin(), run.end());
        bool ok = verdict(run);
        CheckStatus(x.b.Append(absl::MakeConstSpan(run)), ok, "append run");
        if (ok) x.m = next, ++took; else ++refused;
        break;
      }
      case 2: {
        Slot& y = s[c.Choice(2)];
        c.Note("append batch ", &y - &s[0], " to ", &x - &s[0]);
        List next = x.m;
        next.insert(next.end(), y.m.begin(), y.m.end());
        // Joining only looks at the seam; the rest of each batch is already in order.
        bool ok = x.m.empty() || y.m.empty() || Follows(x.m.back(), y.m[0]);
        c.Label("self append", &x == &y && ok && !x.m.empty());
        CheckStatus(x.b.Append(y.b), ok, "append batch");
        if (ok) x.m = next, ++took; else ++refused;
        break;
      }
      case 3: {
        if (x.m.empty()) break;
        size_t k = c.Choice(x.m.size() - 1);
        StrokeInput i = g.One(c.Chance(1, 5) ? g.Fmt() : f, c.Chance(3, 4) ? x.m[k].elapsed_time.ToSeconds() : c.UniformF(0, 2));
        if (c.Chance(1, 3)) i = x.m[k], i.position.x += 1;
        c.Note("set ", k, " of ", &x - &s[0], " to ", i);
        auto single = Ok(i);
        if (!single) throw pbt::Discard{};
        bool ok = *single && (x.m.size() == 1 || ((k == 0 || Follows(x.m[k - 1], i)) && (k + 1 == x.m.size() || Follows(i, x.m[k + 1]))));
        CheckStatus(x.b.Set(k, i), ok, "set");
        c.Label("format replaced", ok && x.m.size() == 1 && x.m[0].HasPressure() != i.HasPressure());
        if (ok) x.m[k] = i, ++took; else ++refused;
        break;
      }
      case 4: {
        size_t at = c.Choice(x.m.size()), cnt = c.PickOf<size_t>({0, 1, 2, 3, (size_t)-1, x.m.size() - at});
        c.Note("erase ", at, " +", cnt, " of ", &x - &s[0]);
        if (cnt == (size_t)-1 && c.Bool()) x.b.Erase(at); else x.b.Erase(at, cnt);
        size_t e = cnt > x.m.size() - at ? x.m.size() : at + cnt;
        x.m.erase(x.m.begin() + at, x.m.begin() + e);
        break;
      }
      case 5: c.Note("clear ", &x - &s[0]); x.b.Clear(); x.m.clear(); break;
      case 6: {
        Slot& y = s[c.Choice(2)];
        c.Note("copy ", &x - &s[0], " over ", &y - &s[0]);
        y = x;
        ++copies;
        break;
      }
      case 7: {
        Slot& y = s[c.Choice(2)];
        c.Note("deep copy ", &x - &s[0], " over ", &y - &s[0]);
        y.b = x.b.MakeDeepCopy();
        y.m = x.m;
        ++copies;
        break;
      }
      case 8: {
        Slot& y = s[c.Choice(2)];
        if (&x == &y) break;
        c.Note("move ", &x - &s[0], " over ", &y - &s[0]);
        y.b = std::move(x.b);
        y.m = x.m;
        x.b = StrokeInputBatch();
        x.m.clear();
        break;
      }
      case 9: {
        // Transforms of small integers are exact.
        ink::AffineTransform t(c.Signed(-2, 2), c.Signed(-2, 2), c.Signed(-8, 8), c.Signed(-2, 2), c.Signed(-2, 2), c.Signed(-8, 8));
        c.Note("transform ", &x - &s[0], " by ", t);
        for (auto& i : x.m) i.position = t.Apply(i.position);
        x.b.Transform(t);
        break;
      }
      default: {
        auto r = StrokeInputBatch::Create(x.m);
        // Erasing and collapsing transforms can leave a repeat behind, which creation refuses.
        bool ok = Ok(x.m) == true;
        c.Note("create from the list of ", &x - &s[0]);
        CheckStatus(r.status(), ok, "create");
        if (ok) x.b = *r;
        break;
      }
    }
    for (auto& y : s) Compare(y.b, y.m, "after a step");
  }
  c.NonTrivial(refused > 0 && took >= 2 && copies > 0);
}

PBT(create, 8, "the list has at least two inputs") {
  Gen g{c, (unsigned)c.PickOf<int>({0, 5, 15})};
  auto f = g.Fmt();
  List v = g.Run(f, c.Bool() ? 0 : 2.f, c.Len(0, 8));
  if (!v.empty() && g.Odd()) v[c.Choice(v.size() - 1)] = g.One(g.Fmt(), 1);
  c.Note(v);
  c.NonTrivial(v.size() >= 2);
  auto ok = Ok(v);
  if (!ok) throw pbt::Discard{};
  c.Label(*ok ? "valid" : "invalid");
  auto r = StrokeInputBatch::Create(v);
  CheckStatus(r.status(), *ok, "create");
  if (*ok) Compare(*r, v, "creation");
  for (size_t k = 1; k < v.size(); ++k) {
    bool fin = true;
    for (int j = 0; j < 2; ++j) fin = fin && Ok(v[k - j]) == true;
    if (!fin) continue;
    CheckStatus(ink::stroke_input_internal::ValidateConsecutiveInputs(v[k - 1], v[k]), Follows(v[k - 1], v[k]), "pair");
  }
}

PBT(text, 2, "an optional property is present") {
  Gen g{c};
  auto f = g.Fmt();
  List v = g.Run(f, 0, c.Len(0, 4));
  auto b = *StrokeInputBatch::Create(v);
  std::string t = absl::StrCat(b), want = "StrokeInputBatch[";
  static const char* const tools[] = {"Unknown", "Mouse", "Touch", "Stylus"};
  for (size_t k = 0; k < v.size(); ++k) {
    std::string one = absl::StrCat("StrokeInput[", tools[(int)v[k].tool_type], ", ", v[k].position, ", ", v[k].elapsed_time);
    if (f.unit) one += absl::StrCat(", stroke_unit_length=", v[k].stroke_unit_length);
    if (f.pressure) one += absl::StrCat(", pressure=", v[k].pressure);
    if (f.tilt) one += absl::StrCat(", tilt=", v[k].tilt);
    if (f.orientation) one += absl::StrCat(", orientation=", v[k].orientation);
    one += "]";
    PROP(absl::StrCat(v[k]) == one, "text", "got ", v[k], " expected ", one);
    want += (k ? ", " : "") + one;
  }
  want += "]";
  c.Note(want);
  c.NonTrivial(f.pressure || f.tilt || f.orientation);
  PROP(t == want, "text", "got ", t, " expected ", want);
}
