// Colours: formats, colour spaces, gamut, packing, and the transfer curves and matrices offered to shaders.
#include <array>
#include <cmath>
#include <string>

#include <jni.h>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "ink/color/color.h"
#include "ink/color/color_helpers.h"
#include "ink/color/color_space.h"
#include "ink/color/internal/jni/color_jni_helper.h"

using ink::Color;
using ink::ColorSpace;
using ink::MatrixLayout;
using F = ink::Color::Format;
using pbt::Ctx;

namespace {
// ---- the reference: transfer curve and primaries from the published standards, in double ----
double Decode(double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
double Encode(double v) { return v <= 0.04045 / 12.92 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; }
using M3 = std::array<std::array<double, 3>, 3>;  // [row][column]
M3 Inverse(const M3& m) {
  M3 r;
  double d = 0;
  for (int i = 0; i < 3; ++i) d += m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r[j][i] = (m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]) / d;
  return r;
}
M3 Mul(const M3& a, const M3& b) {
  M3 r{};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
M3 ToXyz(ColorSpace s) {
  const double wx = 0.31271, wy = 0.32902;
  double p[3][2] = {{0.64, 0.33}, {0.30, 0.60}, {0.15, 0.06}};
  if (s == ColorSpace::kDisplayP3) { p[0][0] = 0.68, p[0][1] = 0.32, p[1][0] = 0.265, p[1][1] = 0.69; }
  M3 m;
  for (int i = 0; i < 3; ++i) {
    m[0][i] = p[i][0] / p[i][1];
    m[1][i] = 1;
    m[2][i] = (1 - p[i][0] - p[i][1]) / p[i][1];
  }
  M3 v = Inverse(m);
  double w[3] = {wx / wy, 1, (1 - wx - wy) / wy};
  for (int i = 0; i < 3; ++i) {
    double sc = v[i][0] * w[0] + v[i][1] * w[1] + v[i][2] * w[2];
    for (int j = 0; j < 3; ++j) m[j][i] *= sc;
  }
  return m;
}
ColorSpace Space(Ctx& c) { return c.Bool() ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; }
F Fmt(Ctx& c) { return c.PickOf<F>({F::kLinear, F::kGammaEncoded, F::kPremultipliedAlpha}); }
float Chan(Ctx& c) {
  switch (c.Choice(5)) {
    case 0: return (float)c.Choice(255) / 255.f;
    case 1: return c.UniformF(0, 1);
    case 2: return c.PickOf<float>({0.f, 1.f, -0.f, 0.04045f, 0.0031308f, 0.5f, 2.f, -1.f, std::nextafter(1.f, 2.f), std::nextafter(0.f, -1.f), 1.00001f, 1.000005f, -7e-6f, -8e-6f});
    case 3: return c.UniformF(-5, 5);
    case 4: return std::ldexp(1.f, -(int)c.Choice(60)) * c.UniformF(-1, 1);
    default: return c.AnyFloat();
  }
}
float Nz(float x) { return std::isnan(x) ? 0.f : x; }
struct V4 { float v[4]; };
V4 Lin(const Color& c) { auto f = c.AsFloat(F::kLinear); return {{f.r, f.g, f.b, f.a}}; }
std::string S(const V4& v) { return pbt::Cat("(", v.v[0], ", ", v.v[1], ", ", v.v[2], ", ", v.v[3], ")"); }
V4 Arr(Color::RgbaFloat f) { return {{f.r, f.g, f.b, f.a}}; }
Color AnyColor(Ctx& c) {
  float a = c.Bool() ? 1 : c.UniformF(0, 1);
  return Color::FromFloat(Chan(c), Chan(c), Chan(c), a, F::kLinear, Space(c));
}
void CheckInvariant(const Color& x, const char* where) {
  V4 l = Lin(x);
  for (float f : l.v) PROP(!std::isnan(f), "no-nan-channel", where, " gives ", S(l));
  PROP(l.v[3] >= 0 && l.v[3] <= 1, "alpha-in-unit-range", where, " gives ", S(l));
}
double Rel(double v) { return std::max(1.0, std::fabs(v)); }
}  // namespace

PBT(transfer_curve, 3, "the value lies on the power part of the curve") {
  float x = c.Bool() ? c.UniformF(0, 1) : c.Bool() ? c.Near(c.PickOf<float>({0.04045f, 0.04045f / 12.92f})) : std::fabs(Chan(c));
  ColorSpace s = Space(c);
  ASSUME(std::isfinite(x) && x < 1e4f);
  c.Note(x);
  c.NonTrivial(x > 0.04045f);
  float d = ink::GammaDecode(x, s), e = ink::GammaEncode(x, s);
  PROP(pbt::NearRel(d, Decode(x), 5e-7, 3e-8), "decode-curve", x, " -> ", d, " expected ", Decode(x));
  PROP(pbt::NearRel(e, Encode(x), 5e-7, 3e-7), "encode-curve", x, " -> ", e, " expected ", Encode(x));
  PROP(pbt::NearRel(ink::GammaEncode(d, s), x, 2e-6, 1e-6), "encode-inverts-decode", x);
  PROP(pbt::NearRel(ink::GammaDecode(e, s), x, 4e-6, 1e-6), "decode-inverts-encode", x);
  // the curve parameters given to shaders describe the same curve
  auto p = ink::GetGammaDecodingParameters(s);
  double r = x >= p[3] ? std::pow((double)p[0] * x + p[1], (double)p[4]) : (double)p[2] * x;
  PROP(pbt::NearRel(d, r, 1e-5, 1e-7), "shader-curve-parameters", x, " -> ", d, " from parameters ", r);
  float y = x + c.UniformF(0, 0.1f);
  PROP(ink::GammaDecode(y, s) >= d - 1e-7f * (float)Rel(d) && ink::GammaEncode(y, s) >= e - 4e-7f * (float)Rel(e), "monotone", x, " ", y);
}

PBT(matrices, 1, "always") {
  ColorSpace s = Space(c);
  c.NonTrivial();
  c.Note(ink::ToFormattedString(s));
  M3 to = ToXyz(s), from = Inverse(to);
  auto tc = ink::GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor), tr = ink::GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor);
  auto fc = ink::GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kColumnMajor), fr = ink::GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kRowMajor);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      PROP(pbt::Near(tc[j * 3 + i], to[i][j], 2e-5) && tr[i * 3 + j] == tc[j * 3 + i], "to-xyz-matrix", "row ", i, " column ", j, " ", tc[j * 3 + i], " ", to[i][j]);
      PROP(pbt::Near(fc[j * 3 + i], from[i][j], 1e-4) && fr[i * 3 + j] == fc[j * 3 + i], "from-xyz-matrix", "row ", i, " column ", j, " ", fc[j * 3 + i], " ", from[i][j]);
      double id = 0;
      for (int k = 0; k < 3; ++k) id += (double)tr[i * 3 + k] * fr[k * 3 + j];
      PROP(pbt::Near(id, i == j, 1e-6), "matrices-inverse", "row ", i, " column ", j, " ", id);
    }
  // white is white: all channels 1 map to the D65 white point
  double X = 0, Y = 0, Z = 0;
  for (int k = 0; k < 3; ++k) X += tr[k], Y += tr[3 + k], Z += tr[6 + k];
  PROP(pbt::Near(Y, 1, 1e-6) && pbt::Near(X / (X + Y + Z), 0.31271, 1e-6) && pbt::Near(Y / (X + Y + Z), 0.32902, 1e-6), "white-point", X, " ", Y, " ", Z);
}

PBT(convert, 3, "the two spaces differ and the colour is not grey") {
  ColorSpace s = Space(c), t = Space(c);
  std::array<float, 4> v{Chan(c), Chan(c), Chan(c), c.UniformF(0, 1)};
  for (int i = 0; i < 3; ++i) ASSUME(std::isfinite(v[i]) && std::fabs(v[i]) < 1e30f);
  c.NonTrivial(s != t && (v[0] != v[1] || v[1] != v[2]));
  c.Note(v[0], " ", v[1], " ", v[2], " ", (int)s, " to ", (int)t);
  auto r = ink::ConvertColor(v, s, t);
  PROP(r[3] == v[3], "alpha-kept", r[3]);
  if (s == t) PROP(r == v, "same-space-identity");
  M3 m = Mul(Inverse(ToXyz(t)), ToXyz(s));
  double mag = std::max({std::fabs(v[0]), std::fabs(v[1]), std::fabs(v[2])});
  for (int i = 0; i < 3; ++i) {
    double e = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    PROP(std::fabs(r[i] - e) <= 4e-5 * mag + 1e-38, "converted-channel", "channel ", i, " ", r[i], " expected ", e);
  }
  auto b = ink::ConvertColor(r, t, s);
  for (int i = 0; i < 4; ++i) PROP(std::fabs((double)b[i] - v[i]) <= 2e-6 * mag + 1e-38, "convert-round-trip", "channel ", i, " ", v[i], " -> ", b[i]);
  Color col = Color::FromFloat(v[0], v[1], v[2], v[3], F::kLinear, s);
  V4 q = Lin(col.InColorSpace(t));
  for (int i = 0; i < 4; ++i) PROP(q.v[i] == r[i], "color-object-converts-alike", "channel ", i, " ", q.v[i], " ", r[i]);
  PROP(col.InColorSpace(t).GetColorSpace() == t && col.GetColorSpace() == s, "space-recorded");
}

PBT(formats, 5, "alpha is strictly between 0 and 1 and some channel is not 0 or 1") {
  float v[4] = {Chan(c), Chan(c), Chan(c), c.Bool() ? c.UniformF(0, 1) : Chan(c)};
  F f = Fmt(c);
  ColorSpace s = Space(c);
  float a = std::min(1.f, std::max(0.f, Nz(v[3])));
  if (f == F::kPremultipliedAlpha && a == 0 && (Nz(v[0]) || Nz(v[1]) || Nz(v[2]))) { v[0] = v[1] = v[2] = 0; }
  c.Note(v[0], " ", v[1], " ", v[2], " ", v[3], " format ", (int)f, " space ", (int)s);
  c.NonTrivial(a > 0 && a < 1 && (v[0] != std::floor(v[0]) || v[1] != std::floor(v[1])));
  c.Label("infinite", std::isinf(v[0]) || std::isinf(v[1]) || std::isinf(v[2]));
  Color col = Color::FromFloat(v[0], v[1], v[2], v[3], f, s);
  CheckInvariant(col, "construction");
  PROP(col.GetColorSpace() == s && col.GetAlphaFloat() == a, "alpha-clamped", col.GetAlphaFloat(), " expected ", a);
  V4 l = Lin(col);
  for (int i = 0; i < 3; ++i) {
    float x = Nz(v[i]);
    if (f == F::kLinear) PROP(l.v[i] == x, "linear-stored", "channel ", i, " ", x, " ", l.v[i]);
    if (f == F::kGammaEncoded && x >= 0 && x < 1e6f) PROP(pbt::NearRel(l.v[i], Decode(x), 1e-6, 3e-8), "gamma-decoded", "channel ", i, " ", x, " ", l.v[i]);
    if (f == F::kPremultipliedAlpha) {
      double e = a == 0 ? 0 : (double)x / a;
      if (std::fabs(e) < 3e38) PROP(pbt::NearRel(l.v[i], e, 2e-7, 3e-45), "unpremultiplied", "channel ", i, " ", x, " alpha ", a, " ", l.v[i]);
    }
  }
  for (F g : {F::kLinear, F::kGammaEncoded, F::kPremultipliedAlpha}) {
    V4 o = Arr(col.AsFloat(g));
    PROP(o.v[3] == a, "alpha-format-independent", (int)g);
    for (int i = 0; i < 3; ++i) {
      PROP(!std::isnan(o.v[i]), "no-nan-channel", "reading format ", (int)g, " ", S(o));
      double x = l.v[i];
      if (g == F::kLinear) PROP(o.v[i] == l.v[i], "linear-read");
      if (g == F::kPremultipliedAlpha) PROP(a == 0 ? o.v[i] == 0 : pbt::NearRel(o.v[i], x * a, 2e-7, 3e-45), "premultiplied", "channel ", i, " ", x, " alpha ", a, " ", o.v[i]);
      if (g == F::kGammaEncoded && x >= 0 && x < 1e6) PROP(pbt::NearRel(o.v[i], Encode(x), 1e-6, 3e-7), "gamma-encoded", "channel ", i, " ", x, " ", o.v[i]);
      if (g == f && std::fabs(Nz(v[i])) <= 5 && (f != F::kGammaEncoded || v[i] >= 0) && (f != F::kPremultipliedAlpha || a == 0 || std::fabs((double)Nz(v[i]) / a) < 3e38)) PROP(pbt::Near(o.v[i], Nz(v[i]), 5e-6), "same-format-round-trip", "channel ", i, " ", v[i], " -> ", o.v[i]);
    }
    // the 8-bit and packed forms quantise exactly what the float form shows
    auto u = col.AsUint8(g);
    uint8_t ub[4] = {u.r, u.g, u.b, u.a};
    uint32_t pk = 0;
    for (int i = 0; i < 4; ++i) {
      double q = (double)o.v[i] * 255;
      if (!(q > 0)) q = 0;
      if (q > 255) q = 255;
      PROP(std::fabs(ub[i] - q) <= 0.5 + 3e-5, "eight-bit-rounding", "format ", (int)g, " channel ", i, " ", o.v[i], " -> ", ub[i]);
      pk = pk << 8 | ub[i];
    }
    PROP(col.AsPackedUint32RGBA(g) == pk, "packed-order", "format ", (int)g);
  }
  PROP(col == Color::FromFloat(v[0], v[1], v[2], v[3], f, s), "deterministic");
}

PBT(eight_bit, 4, "all four channels differ") {
  uint32_t v = (uint32_t)c.Choice(0xffffffffu);
  if (c.Chance(1, 3)) v = (uint32_t)c.PickOf<uint32_t>({0xff, 0x01020304, 0xfffefdfc, 0x80ff00ff, 0x000000ff, 0xffffff00});
  ColorSpace s = Space(c);
  F f = Fmt(c);
  uint8_t b[4] = {uint8_t(v >> 24), uint8_t(v >> 16), uint8_t(v >> 8), uint8_t(v)};
  c.Note(v, " format ", (int)f);
  c.NonTrivial(b[0] != b[1] && b[1] != b[2] && b[2] != b[3] && b[0] != b[2]);
  if (f == F::kPremultipliedAlpha && b[3] == 0) { v = 0; b[0] = b[1] = b[2] = 0; }
  Color p = Color::FromPackedUint32RGBA(v, f, s), u = Color::FromUint8(b[0], b[1], b[2], b[3], f, s);
  PROP(p == u, "packed-equals-channels", v);
  PROP(p == Color::FromFloat(b[0] / 255.f, b[1] / 255.f, b[2] / 255.f, b[3] / 255.f, f, s), "bytes-equal-floats", v);
  auto o = u.AsUint8(f);
  PROP(o.r == b[0] && o.g == b[1] && o.b == b[2] && o.a == b[3], "eight-bit-round-trip", v, " format ", (int)f, " -> ", (int)o.r, " ", (int)o.g, " ", (int)o.b, " ", (int)o.a);
  PROP(u.AsPackedUint32RGBA(f) == v, "packed-round-trip", v);
  auto h = ink::UnpackUint32ARGB(v);
  PROP(h.a == b[0] && h.r == b[1] && h.g == b[2] && h.b == b[3] && ink::PackUint32ARGB(h) == v, "argb-helpers", v);
}

PBT(gamut, 4, "the colour is outside the gamut") {
  Color x = AnyColor(c);
  if (c.Chance(1, 4)) x = Color::FromFloat(c.PickOf<float>({INFINITY, -INFINITY, 1e38f, 2.f}), c.PickOf<float>({INFINITY, 3e38f, 0.f, -INFINITY}), Chan(c), c.UniformF(0, 1), F::kLinear);
  V4 l = Lin(x);
  c.Note(S(l));
  bool in = true;
  double worst = 0;
  for (int i = 0; i < 3; ++i) {
    in = in && l.v[i] >= 0 && l.v[i] <= 1;
    worst = std::max({worst, (double)-l.v[i], (double)l.v[i] - 1});
  }
  c.NonTrivial(!in);
  PROP(x.IsInGamut() == in, "in-gamut", S(l));
  if (in || worst < 7.5e-6) PROP(x.IsNearlyInGamut(), "nearly-in-gamut", S(l));
  if (worst > 7.8e-6) PROP(!x.IsNearlyInGamut(), "nearly-in-gamut", S(l));
  Color k = x.ClampedToGamut(), z = x.ScaledToGamut();
  CheckInvariant(k, "clamping to the gamut");
  CheckInvariant(z, "scaling to the gamut");
  PROP(k.IsInGamut() && z.IsInGamut() && k.GetColorSpace() == x.GetColorSpace() && z.GetColorSpace() == x.GetColorSpace(), "result-in-gamut", S(Lin(z)));
  PROP(k.GetAlphaFloat() == l.v[3] && z.GetAlphaFloat() == l.v[3], "gamut-keeps-alpha");
  V4 kl = Lin(k), zl = Lin(z);
  float m = std::max({l.v[0], l.v[1], l.v[2]});
  for (int i = 0; i < 3; ++i) {
    PROP(kl.v[i] == std::min(1.f, std::max(0.f, l.v[i])), "clamped-channel", S(l), " -> ", S(kl));
    if (std::isfinite(m)) {
      double e = std::max(0.f, l.v[i]) / (m > 1 ? (double)m : 1.0);
      PROP(pbt::NearRel(zl.v[i], e, 2e-7, 1e-44), "scaled-channel", S(l), " -> ", S(zl));
    } else {
      PROP(std::isinf(l.v[i]) && l.v[i] > 0 ? zl.v[i] == 1 : zl.v[i] == 0, "scaled-infinite-channel", S(l), " -> ", S(zl));
    }
  }
  if (in) PROP(k == x && z == x, "in-gamut-unchanged", S(l));
}

PBT(relations, 3, "the colours differ only slightly or in their space") {
  Color x = AnyColor(c), y = x;
  int how = (int)c.Choice(4);
  V4 l = Lin(x);
  float d = 0;
  if (how == 1) y = AnyColor(c);
  if (how == 2) {
    int i = (int)c.Choice(3);
    d = c.PickOf<float>({1e-6f, 5e-6f, 7e-6f, 9e-6f, 2e-5f, 1e-3f});
    for (int k = 0; k < 4; ++k) ASSUME(l.v[k] >= 0 && l.v[k] <= 1);
    l.v[i] += l.v[i] > 0.5f ? -d : d;
    y = Color::FromFloat(l.v[0], l.v[1], l.v[2], l.v[3], F::kLinear, x.GetColorSpace());
  }
  if (how == 3) {
    for (int k = 0; k < 3; ++k) ASSUME(std::fabs(l.v[k]) < 5);
    y = x.InColorSpace(Space(c));
  }
  c.Note(S(Lin(x)), " ", S(Lin(y)), " how ", how);
  c.NonTrivial(how == 2 || how == 3);
  V4 a = Lin(x), b = Lin(y);
  bool eq = x.GetColorSpace() == y.GetColorSpace();
  for (int i = 0; i < 4; ++i) eq = eq && a.v[i] == b.v[i];
  PROP((x == y) == eq && (x != y) == !eq && (y == x) == eq, "equality");
  if (how == 0) PROP(x.NearlyEquals(y), "nearly-equals-itself");
  if (how == 2) {
    if (d < 7.5e-6f) PROP(x.NearlyEquals(y) && y.NearlyEquals(x), "nearly-equals-close", d);
    if (d > 7.8e-6f) PROP(!x.NearlyEquals(y) && !y.NearlyEquals(x), "nearly-equals-far", d);
  }
  if (how == 3) PROP(x.NearlyEquals(y) && y.NearlyEquals(x), "nearly-equals-across-spaces", S(a), " ", S(b));
  float al = c.Bool() ? c.UniformF(-0.5f, 1.5f) : Chan(c);
  Color w = x.WithAlphaFloat(al);
  V4 wl = Lin(w);
  PROP(wl.v[0] == a.v[0] && wl.v[1] == a.v[1] && wl.v[2] == a.v[2] && w.GetColorSpace() == x.GetColorSpace(), "with-alpha-keeps-colour", al);
  PROP(wl.v[3] == std::min(1.f, std::max(0.f, Nz(al))), "with-alpha-clamps", al, " -> ", wl.v[3]);
  Color inf = Color::FromFloat(Chan(c), c.PickOf<float>({INFINITY, -INFINITY, 3e38f}), c.AnyFloat(), c.UniformF(0, 1), F::kLinear, Space(c));
  CheckInvariant(inf.InColorSpace(Space(c)), "conversion of an infinite colour");
}

PBT(constants_and_crash, 1, "always") {
  c.NonTrivial();
  auto is = [](Color x, uint32_t v) { return x.AsPackedUint32RGBA(F::kGammaEncoded) == v && x.GetColorSpace() == ColorSpace::kSrgb; };
  PROP(is(Color(), 0xff) && is(Color::Black(), 0xff) && is(Color::White(), 0xffffffff) && is(Color::Transparent(), 0) && is(Color::Red(), 0xff0000ff) && is(Color::Green(), 0x00ff00ff) &&
           is(Color::Blue(), 0xffff) && is(Color::Cyan(), 0x00ffffff) && is(Color::Magenta(), 0xff00ffff) && is(Color::Yellow(), 0xffff00ff), "named-colours");
  PROP(ink::JIntToColorSpace(0) == ColorSpace::kSrgb && ink::JIntToColorSpace(1) == ColorSpace::kDisplayP3, "java-space-ids");
  PROP(ink::ToFormattedString(ColorSpace::kSrgb) == "sRGB" && ink::ToFormattedString(ColorSpace::kDisplayP3) == "Display-P3", "space-names");
  if (c.Chance(1, 64)) {
    float v = c.UniformF(0.01f, 1);
    int ch = (int)c.Choice(2);
    PROP(pbt::Dies([&] { Color::FromFloat(ch == 0 ? v : 0, ch == 1 ? v : 0, ch == 2 ? v : 0, 0, F::kPremultipliedAlpha); }), "impossible-premultiplied-crashes", ch, " ", v);
    PROP(pbt::Dies([&] { Color::FromUint8(ch == 0 ? 1 : 0, ch == 1 ? 1 : 0, ch == 2 ? 1 : 0, 0, F::kPremultipliedAlpha); }), "impossible-premultiplied-crashes", ch);
  }
}
