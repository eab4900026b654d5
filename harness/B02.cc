// Which brushes are accepted, what a brush family and a brush keep, and which mesh attributes they need.
#include <algorithm>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "harness/brushgen.h"
#include "ink/brush/brush.h"
#include "ink/color/color.h"
#include "ink/geometry/mesh_format.h"

using namespace bg;
using pbt::Ctx;
namespace bi = ink::brush_internal;
using Id = ink::MeshFormat::AttributeId;

namespace {
void Check(const absl::Status& s, bool ok, const char* tag, const std::string& what) {
  PROP(s.ok() == ok, tag, ok ? "rejected a valid " : "accepted an invalid ", what, ": ", s.ToString());
  if (!ok) PROP(s.code() == absl::StatusCode::kInvalidArgument, "code", "wrong error for ", what, ": ", s.ToString());
}
bool SameCoats(absl::Span<const BrushCoat> a, const std::vector<BrushCoat>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < b.size(); ++k) if (a[k].tips != b[k].tips || a[k].paint != b[k].paint) return false;
  return true;
}
ink::Color GenColor(Ctx& c) {
  return ink::Color::FromFloat(c.UniformF(0, 1), c.UniformF(0, 1), c.UniformF(0, 1), c.UniformF(0, 1)).InColorSpace(c.Bool() ? ink::ColorSpace::kSrgb : ink::ColorSpace::kDisplayP3);
}
}  // namespace

PBT(nodes, 6, "the node is valid, or invalid in one field") {
  Gen g{c, (unsigned)c.PickOf<int>({3, 8, 40})};
  BB::Node n = g.AnyNode();
  c.Note(n);
  bool ok = Ok(n);
  c.NonTrivial();
  c.Label(ok ? "valid" : "invalid");
  Check(bi::ValidateBrushBehaviorNode(n), ok, "node", absl::StrCat(n));
  if (auto* r = std::get_if<BB::ResponseNode>(&n)) Check(bi::ValidateEasingFunction(r->response_curve), ok, "easing", absl::StrCat(n));
}

PBT(easing, 3, "the curve has parameters") {
  Gen g{c, (unsigned)c.PickOf<int>({4, 20})};
  EF e = g.Easing();
  c.Note(e);
  c.NonTrivial(e.parameters.index() != 0);
  c.Label(Ok(e) ? "valid" : "invalid");
  Check(bi::ValidateEasingFunction(e), Ok(e), "easing", absl::StrCat(e));
}

PBT(behavior, 6, "the list has at least two nodes") {
  Gen g{c, (unsigned)c.PickOf<int>({10, 40, 200})};
  BB b;
  if (c.Chance(1, 3)) {
    int n = c.Len(0, 6);
    Gen v{c};
    for (int k = 0; k < n; ++k) b.nodes.push_back(v.AnyNode());
  } else {
    b = g.Behavior(c.Bool() ? 6 : 14);
  }
  c.Note(b);
  c.NonTrivial(b.nodes.size() >= 2);
  c.Label(Ok(b) ? "valid" : "invalid");
  Check(bi::ValidateBrushBehavior(b), Ok(b), "behavior", absl::StrCat(b));
}

PBT(tip, 4, "the tip is valid, or invalid in one field") {
  Gen g{c, (unsigned)c.PickOf<int>({8, 30, 150})};
  BrushTip t = g.Tip(2);
  c.Note(t);
  c.NonTrivial();
  c.Label(Ok(t) ? "valid" : "invalid");
  Check(bi::ValidateBrushTip(t), Ok(t), "tip", absl::StrCat(t));
}

PBT(layer, 4, "the layer is valid, or invalid in one field") {
  Gen g{c, (unsigned)c.PickOf<int>({12, 40, 200})};
  auto l = g.Layer((BP::TextureMapping)c.Int(0, 1));
  c.Note(l);
  c.NonTrivial();
  c.Label(Ok(l) ? "valid" : "invalid");
  Check(bi::ValidateBrushPaintTextureLayer(l), Ok(l), "layer", absl::StrCat(l));
}

PBT(paint, 3, "the paint has at least two layers") {
  Gen g{c, (unsigned)c.PickOf<int>({60, 300})};
  BrushPaint p = g.Paint(4);
  c.Note(p);
  c.NonTrivial(p.texture_layers.size() >= 2);
  c.Label(Ok(p) ? "valid" : "invalid");
  Check(bi::ValidateBrushPaint(p), Ok(p), "paint", absl::StrCat(p));
}

PBT(family, 4, "the family has a coat") {
  Gen g{c, (unsigned)c.PickOf<int>({0, 150, 600})};
  bool valid = true;
  std::vector<BrushCoat> coats;
  int n = c.Chance(1, 6) ? c.PickOf<int>({0, 9, 10, 11, 12}) : c.Len(1, 3);
  for (int k = 0; k < n; ++k) {
    coats.push_back(k < 4 ? g.Coat() : BrushCoat{.tips = {BrushTip{}}});
    valid = valid && Ok(coats[k]);
    Check(bi::ValidateBrushCoat(coats[k]), Ok(coats[k]), "coat", absl::StrCat(coats[k]));
  }
  PROP(BrushFamily::MaxBrushCoats() == 10, "limit", "families are limited to 10 coats");
  valid = valid && n <= 10;
  // The name: absent, a brush-family address, or something else.
  static const char* const kNames[] = {"", "/brush-family:a", "ink://ink/brush-family:b:3", "/texture:a", "nonsense", "/brush-family:", "//ink/brush-family:c"};
  static const bool kParses[] = {true, true, true, true, false, false, true}, kFits[] = {true, true, true, false, false, false, true};
  int name = c.Weighted({4, 3, 2, 1, 1, 1, 1});
  bool as_text = c.Bool(), single = n == 1 && coats[0].tips.size() == 1 && c.Bool();
  BrushFamily::InputModel model = c.Bool() ? BrushFamily::InputModel(BrushFamily::SpringModelV1{}) : BrushFamily::InputModel(BrushFamily::SpringModelV2{});
  c.Note(n, " coats ", coats, " name '", kNames[name], "' ", as_text ? "text" : "uri", single ? " tip+paint" : "");
  std::optional<ink::Uri> uri;
  auto parsed = ink::Uri::Parse(kNames[name]);
  if (name) PROP(parsed.ok() == kParses[name], "uri-parse", "parsing '", kNames[name], "': ", parsed.status().ToString());
  absl::StatusOr<BrushFamily> f = absl::InternalError("unset");
  if (as_text) {
    valid = valid && kFits[name];
    f = single ? BrushFamily::Create(coats[0].tips[0], coats[0].paint, absl::string_view(kNames[name]), model) : BrushFamily::Create(coats, absl::string_view(kNames[name]), model);
    if (name) { if (parsed.ok()) uri = *parsed; }
  } else {
    if (name && parsed.ok()) { uri = *parsed; valid = valid && kFits[name]; }
    else if (name == 4) { uri = ink::Uri(); valid = false; }
    f = single ? BrushFamily::Create(coats[0].tips[0], coats[0].paint, uri, model) : BrushFamily::Create(coats, uri, model);
  }
  c.Label(valid ? "valid" : "invalid");
  c.NonTrivial(n > 0);
  Check(f.status(), valid, "family", absl::StrCat(n, " coats, name '", kNames[name], "'"));
  if (!valid) return;
  PROP(SameCoats(f->GetCoats(), coats), "family-coats", "the family must keep its coats: ", *f);
  PROP(f->GetUri() == uri, "family-uri", "the family must keep its name");
  PROP(f->GetInputModel().index() == model.index(), "family-model", "the family must keep its input model");
  // Copies are independent and equal.
  BrushFamily copy = *f, moved = std::move(*f);
  PROP(SameCoats(copy.GetCoats(), coats) && SameCoats(moved.GetCoats(), coats) && copy.GetUri() == uri && moved.GetUri() == uri && copy.GetInputModel().index() == model.index(), "family-copy", "a copied and a moved family must keep everything");
  if (uri) PROP(absl::StrCat(copy).find(absl::StrCat(*uri)) != std::string::npos, "family-text", "the text names the family: ", copy);
}

PBT(brush, 5, "a change to the brush was refused or accepted after another one") {
  auto size = [&] {
    switch (c.Choice(3)) {
      case 0: return c.PickOf<float>({kNan, kInf, -kInf, 0.f, -0.f, -1.f, std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::max()});
      case 1: return c.PickOf<float>({0.1f, 1.f, 0.5f, 2.f, std::nextafter(1.f, 2.f), std::nextafter(1.f, 0.f)});
      default: return c.UniformF(0.01f, 10);
    }
  };
  auto pos = [](float v) { return Fin(v) && v > 0; };
  Gen g{c};
  auto family = [&] { std::vector<BrushCoat> k = {g.Coat()}; return *BrushFamily::Create(k); };
  float s = size(), e = c.Bool() ? size() : std::min(s, 0.1f);
  BrushFamily fam = family();
  ink::Color col = GenColor(c);
  auto b = ink::Brush::Create(fam, col, s, e);
  c.Note("create size ", s, " epsilon ", e);
  bool ok = pos(s) && pos(e) && s >= e;
  Check(b.status(), ok, "create", absl::StrCat("size ", s, " epsilon ", e));
  ink::Brush br;
  if (ok) br = *b;
  else {
    PROP(br.GetSize() == 1 && br.GetEpsilon() == 0.1f && br.CoatCount() == 1, "default", "a default brush has size 1 and epsilon 0.1");
    s = 1, e = 0.1f, fam = BrushFamily(), col = ink::Color::Red();
  }
  int n = c.Len(0, 8), refused = 0, took = 0;
  for (int k = 0; k < n; ++k) {
    float v = size();
    int op = c.Weighted({3, 3, 1, 1});
    if (op == 0) {
      bool good = pos(v) && v >= e;
      c.Note("SetSize ", v);
      Check(br.SetSize(v), good, "set-size", absl::StrCat("size ", v, " with epsilon ", e));
      if (good) s = v, ++took; else ++refused;
    } else if (op == 1) {
      bool good = pos(v) && v <= s;
      c.Note("SetEpsilon ", v);
      Check(br.SetEpsilon(v), good, "set-epsilon", absl::StrCat("epsilon ", v, " with size ", s));
      if (good) e = v, ++took; else ++refused;
    } else if (op == 2) {
      col = GenColor(c);
      br.SetColor(col);
    } else {
      fam = family();
      br.SetFamily(fam);
    }
    PROP(br.GetSize() == s && br.GetEpsilon() == e, "state", "size ", br.GetSize(), " epsilon ", br.GetEpsilon(), ", expected ", s, " and ", e);
    PROP(br.GetColor() == col, "color", "the brush must keep its color");
    std::vector<BrushCoat> want(fam.GetCoats().begin(), fam.GetCoats().end());
    PROP(SameCoats(br.GetCoats(), want) && br.CoatCount() == want.size() && SameCoats(br.GetFamily().GetCoats(), want), "coats", "the brush must keep its family");
  }
  c.NonTrivial(refused > 0 && took > 0);
}

PBT(attributes, 4, "an optional attribute is needed") {
  Gen g{c};
  BrushCoat k = g.Coat();
  if (c.Chance(1, 4)) {
    // Several tips may be asked about, even though a family takes one.
    int n = c.Len(0, 2);
    for (int j = 0; j < n; ++j) k.tips.push_back(g.Tip());
  }
  c.Note(k);
  std::set<Id> want = {Id::kPosition, Id::kSideDerivative, Id::kSideLabel, Id::kForwardDerivative, Id::kForwardLabel, Id::kOpacityShift};
  for (auto& t : k.tips) for (auto& b : t.behaviors) for (auto& n : b.nodes)
    if (auto* tn = std::get_if<BB::TargetNode>(&n))
      if (tn->target == BB::Target::kHueOffsetInRadians || tn->target == BB::Target::kSaturationMultiplier || tn->target == BB::Target::kLuminosity) want.insert(Id::kColorShiftHsl);
  for (auto& l : k.paint.texture_layers) if (l.mapping == BP::TextureMapping::kWinding) want.insert(Id::kSurfaceUv);
  c.NonTrivial(want.size() > 6);
  auto ids = bi::GetRequiredAttributeIds(k);
  std::set<Id> got(ids.begin(), ids.end());
  PROP(got.size() == ids.size(), "attributes-once", "an attribute is listed twice");
  PROP(got == want, "attributes", "needs ", want.size(), " attributes, listed ", ids.size());
}
