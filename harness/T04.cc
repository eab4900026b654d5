// Asset URIs: exactly the documented grammar is accepted, parts are what the text says, and the
// normalised form is the shortest text that parses back to the same value.
#include <optional>
#include <string>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "ink/types/uri.h"

using ink::Uri;
using pbt::Ctx;

namespace {
struct Ref {
  std::string reg = "ink", name;
  Uri::AssetType type = Uri::AssetType::kUninitialized;
  int rev = 1;
};
// [ink:][//reg]/type:name[:revision]
std::optional<Ref> RefParse(const std::string& s) {
  Ref r;
  if (s.empty()) {
    r.reg = "";
    r.rev = 0;
    return r;
  }
  size_t p = 0;
  if (s.size() >= 4 && (s[0] | 32) == 'i' && (s[1] | 32) == 'n' && (s[2] | 32) == 'k' && s[3] == ':') p = 4;
  auto word = [&](std::string& out) {
    size_t b = p;
    while (p < s.size() && ((s[p] >= 'a' && s[p] <= 'z') || s[p] == '-')) ++p;
    out = s.substr(b, p - b);
    return p > b;
  };
  if (s.compare(p, 2, "//") == 0) {
    p += 2;
    if (!word(r.reg)) return {};
  }
  if (p >= s.size() || s[p++] != '/') return {};
  std::string type;
  if (!word(type)) return {};
  if (type == "brush-family") r.type = Uri::AssetType::kBrushFamily;
  else if (type == "texture") r.type = Uri::AssetType::kTexture;
  else return {};
  if (p >= s.size() || s[p++] != ':') return {};
  if (!word(r.name)) return {};
  if (p == s.size()) return r;
  if (s[p++] != ':') return {};
  std::string d = s.substr(p);
  if (d.empty() || d.size() > 9 || d[0] == '0') return {};
  r.rev = 0;
  for (char ch : d) {
    if (ch < '0' || ch > '9') return {};
    r.rev = r.rev * 10 + (ch - '0');
  }
  return r;
}
std::string RefNormal(const Ref& r) {
  if (r.type == Uri::AssetType::kUninitialized) return "";
  return (r.reg == "ink" ? "" : "//" + r.reg) + (r.type == Uri::AssetType::kTexture ? "/texture:" : "/brush-family:") + r.name +
         (r.rev == 1 ? "" : ":" + std::to_string(r.rev));
}
std::string Word(Ctx& c) {
  static const std::string k = "abinkz-";
  std::string w;
  if (c.Chance(1, 4)) return c.PickOf<const char*>({"ink", "texture", "-", "brush-family", "inks", "marker", "a"});
  int n = (int)c.Choice(6);
  for (int i = 0; i <= n; ++i) w += c.Chance(1, 5) ? (char)('a' + c.Choice(25)) : k[c.Choice(k.size() - 1)];
  return w;
}
std::string GenText(Ctx& c) {
  std::string s;
  switch (c.Choice(3)) { case 0: break; case 1: s = "ink:"; break; case 2: s = c.PickOf<const char*>({"INK:", "Ink:", "iNk:"}); break; default: break; }
  switch (c.Choice(2)) { case 0: break; default: s += "//" + Word(c); }
  s += c.Bool() ? "/texture" : "/brush-family";
  s += ":" + Word(c);
  switch (c.Choice(3)) {
    case 0: break;
    case 1: s += ":1"; break;
    case 2: s += ":" + std::to_string(c.Int(1, 999999999)); break;
    default: s += ":" + std::string(c.PickOf<const char*>({"9", "10", "999999999", "100000000", "2"}));
  }
  // mutations: most cases get none or one
  int muts = c.Weighted({5, 4, 1, 1});
  for (int i = 0; i < muts; ++i) {
    size_t p = c.Choice(s.size());
    static const std::string alphabet("/:?#-.ainkAZ01 9%_@\n", 20);
    char ch = c.Chance(1, 10) ? (char)c.Choice(255) : alphabet[c.Choice(alphabet.size() - 1)];
    switch (c.Choice(4)) {
      case 0: s.insert(p, 1, ch); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      case 2: if (p < s.size()) s[p] = ch; break;
      case 3: s.resize(p); break;
      default: s = s.substr(p);
    }
  }
  if (c.Chance(1, 60)) s = c.PickOf<const char*>({"", "ink:", "/", "//", "ink:/", "/texture", "/texture:", "///texture:a", "texture:a", "/texture:a:0", "/texture:a:01", "/texture:a:1000000000",
                                                  "/texture:a:4294967297", "/texture:a:", "//ink/texture:a", "ink://ink/texture:a:1", "/texture:a/b", "/texture:a?x", "/texture:a#x", "/texture:a:1:1"});
  return s;
}
void Check(Ctx& c, const std::string& s) {
  c.Note("\"", s, "\"");
  auto got = Uri::Parse(s);
  auto want = RefParse(s);
  c.NonTrivial(want && !s.empty());
  c.Label(want ? "valid" : "invalid");
  PROP(got.ok() == want.has_value(), "grammar", "\"", s, "\" is ", want ? "valid" : "invalid", " but Parse ", got.ok() ? "accepts" : "rejects", " it");
  if (!want) {
    PROP(got.status().code() == absl::StatusCode::kInvalidArgument && !got.status().message().empty(), "error-kind", s);
    return;
  }
  PROP(got->GetRegName() == want->reg, "reg-name", s, " gives ", std::string(got->GetRegName()));
  PROP(got->GetAssetName() == want->name, "asset-name", s, " gives ", std::string(got->GetAssetName()));
  PROP(got->GetAssetType() == want->type, "asset-type", s);
  PROP(got->GetRevisionNumber() == want->rev, "revision", s, " gives ", got->GetRevisionNumber(), " expected ", want->rev);
  PROP(got->HasInkRegName() == (want->reg == "ink"), "is-ink", s);
  std::string n = got->ToNormalizedString();
  PROP(n == RefNormal(*want), "normal-form", s, " normalises to ", n, ", expected ", RefNormal(*want));
  PROP(absl::StrCat(*got) == n, "text-is-normal-form", s);
  auto again = Uri::Parse(n);
  PROP(again.ok(), "normal-form-parses", n);
  PROP(*again == *got && !(*again != *got) && absl::HashOf(*again) == absl::HashOf(*got), "round-trip", s, " -> ", n);
  PROP(again->ToNormalizedString() == n, "normal-form-is-fixed-point", n);
  PROP(n.size() <= s.size(), "normal-form-not-longer", s, " -> ", n);
}
}  // namespace

PBT(parse, 6, "the text is a valid non-empty URI") { Check(c, GenText(c)); }
PBT(junk, 1, "the text is a valid non-empty URI") {
  static const char* tok[] = {"/", ":", "//", "ink:", "texture", "brush-family", "a", "-", "1", "0", "?", "#", "A", ""};
  std::string s;
  int n = c.Len(0, 8);
  for (int i = 0; i < n; ++i) s += tok[c.Choice(13)];
  Check(c, s);
}
PBT(equality, 3, "both texts are valid and differ") {
  std::string a = GenText(c), b = c.Bool() ? a : GenText(c);
  auto ra = RefParse(a), rb = RefParse(b);
  if (c.Chance(1, 2) && ra && !a.empty()) {  // a variant of the same or a one-part-different URI
    Ref v = *ra;
    switch (c.Choice(4)) {
      case 0: break;
      case 1: v.reg = Word(c); break;
      case 2: v.name = Word(c); break;
      case 3: v.rev = (int)c.Int(1, 3); break;
      default: v.type = v.type == Uri::AssetType::kTexture ? Uri::AssetType::kBrushFamily : Uri::AssetType::kTexture;
    }
    b = (c.Bool() ? "ink:" : "") + std::string("//") + v.reg + RefNormal({"ink", v.name, v.type, v.rev});
    if (v.rev == 1 && c.Bool()) b += ":1";
    rb = RefParse(b);
  }
  ASSUME(ra && rb);
  c.Note("\"", a, "\" vs \"", b, "\"");
  c.NonTrivial(a != b);
  auto x = Uri::Parse(a), y = Uri::Parse(b);
  PROP(x.ok() && y.ok(), "accepted", a, " ", b);
  bool same = ra->reg == rb->reg && ra->name == rb->name && ra->type == rb->type && ra->rev == rb->rev;
  c.Label(same ? "same" : "different");
  PROP((*x == *y) == same && (*x != *y) == !same, "equality", a, " vs ", b);
  PROP((x->ToNormalizedString() == y->ToNormalizedString()) == same, "normal-form-identifies", a, " vs ", b);
  if (same) PROP(absl::HashOf(*x) == absl::HashOf(*y), "hash", a, " vs ", b);
  Uri d;
  PROP(d == Uri() && d.ToNormalizedString().empty() && d.GetRevisionNumber() == 0 && d.GetAssetType() == Uri::AssetType::kUninitialized && !d.HasInkRegName(), "default-value");
}
