#include "vp.hpp"

#include <arc_utilities/arc_helpers.hpp>

using namespace arc_helpers;

namespace {

// A colour type as in ROS messages: plain channels, no constructor.
struct Msg {
  float r = -7, g = -7, b = -7, a = -7;
};

float trim(double v) { return (float)(v < 0 ? 0 : v > 1 ? 1 : v); }
bool eq(double a, double b) { return std::fabs(a - b) <= 1e-5; }

template <class C>
std::string show(const C& c) {
  return vp::cat("(", c.r, ",", c.g, ",", c.b, ",", c.a, ")");
}
template <class C>
void is(const C& c, double r, double g, double b, double a, const char* what) {
  VP_CHECK(eq(c.r, r) && eq(c.g, g) && eq(c.b, b) && eq(c.a, a), what, ": ", show(c), " expected (", r, ",", g, ",", b, ",", a, ")");
}

float channel(vp::Src& s) { return s.b() ? (float)s.real(0, 1) : (float)s.real(-2, 3); }

template <class C>
void builders(vp::Src& s) {
  const float r = channel(s), g = channel(s), b = channel(s), a = channel(s);
  const uint8_t hr = s.byte(), hg = s.byte(), hb = s.byte(), ha = s.byte();
  using B = RGBAColorBuilder<C>;
  is(B::MakeFromFloatColors(r, g, b, a), trim(r), trim(g), trim(b), trim(a), "float channels");
  is(B::MakeFromFloatColors(r, g, b), trim(r), trim(g), trim(b), 1, "opaque float channels");
  is(B::MakeFromHexColors(hr, hg, hb, ha), hr / 255.0, hg / 255.0, hb / 255.0, ha / 255.0, "8-bit channels");
  is(B::MakeFromHexColors(hr, hg, hb), hr / 255.0, hg / 255.0, hb / 255.0, 1, "opaque 8-bit channels");
  is(B::MakeFromMixedColors(hr, hg, hb, a), hr / 255.0, hg / 255.0, hb / 255.0, trim(a), "mixed channels");
  is(B::MakeFromMixedColors(hr, hg, hb), hr / 255.0, hg / 255.0, hb / 255.0, 1, "opaque mixed channels");
  const float f = (float)s.real(-1, 4);
  C c;
  c.r = trim(r), c.g = trim(g), c.b = trim(b), c.a = trim(a);
  is(Multiply(c, f), trim((double)f * c.r), trim((double)f * c.g), trim((double)f * c.b), c.a, "multiplied");
  is(ConvertColor<C, Msg>(c), c.r, c.g, c.b, c.a, "converted");
  is(ConvertColor<C, RGBAColor>(c), c.r, c.g, c.b, c.a, "converted");
}

template <class C>
void mixing(vp::Src& s) {
  C x = RGBAColorBuilder<C>::MakeFromFloatColors((float)s.real(0, 1), (float)s.real(0, 1), (float)s.real(0, 1), (float)s.real(0, 1));
  C y = RGBAColorBuilder<C>::MakeFromFloatColors((float)s.real(0, 1), (float)s.real(0, 1), (float)s.real(0, 1), (float)s.real(0, 1));
  std::ostringstream o;
  std::streambuf* old = std::cerr.rdbuf(o.rdbuf());
  const float t = s.b() ? (float)s.real(0, 1) : (float)s.real(-1, 2);
  const C z = InterpolateColor(x, y, t), at0 = InterpolateColor(x, y, 0.0f), at1 = InterpolateColor(x, y, 1.0f);
  std::cerr.rdbuf(old);
  const double k = t < 0 ? 0 : t > 1 ? 1 : t;
  s.nontrivialIf(k > 0 && k < 1);
  is(at0, x.r, x.g, x.b, x.a, "at 0");
  is(at1, y.r, y.g, y.b, y.a, "at 1");
  is(z, x.r + k * (y.r - x.r), x.g + k * (y.g - x.g), x.b + k * (y.b - x.b), x.a + k * (y.a - x.a), "between");
  for (float ch : {z.r, z.g, z.b, z.a}) VP_CHECK(ch >= 0 && ch <= 1, "channel ", ch);
}

}  // namespace

VP_PROP(builders, 100000, 2000000) {
  s.nontrivial();
  if (s.b()) builders<Msg>(s);
  else builders<RGBAColor>(s);
}

VP_PROP(rgba_color, 100000, 2000000) {
  const float r = channel(s), g = channel(s), b = channel(s), a = channel(s);
  const uint8_t hr = s.byte(), hg = s.byte(), hb = s.byte(), ha = s.byte();
  s.nontrivial();
  is(RGBAColor(r, g, b, a), trim(r), trim(g), trim(b), trim(a), "float constructor");
  is(RGBAColor(r, g, b), trim(r), trim(g), trim(b), 1, "opaque float constructor");
  is(RGBAColor(hr, hg, hb, a), hr / 255.0, hg / 255.0, hb / 255.0, trim(a), "mixed constructor");
  is(RGBAColor(hr, hg, hb), hr / 255.0, hg / 255.0, hb / 255.0, 1, "opaque 8-bit constructor");
  is(RGBAColor(), 0, 0, 0, 0, "default");
  RGBAColor c(hr, hg, hb, ha);
  is(c, hr / 255.0, hg / 255.0, hb / 255.0, ha / 255.0, "8-bit constructor");
  VP_CHECK(c.GetRHex() == hr && c.GetGHex() == hg && c.GetBHex() == hb && c.GetAHex() == ha, "8-bit channels read back as ", (int)c.GetRHex(), " ", (int)c.GetGHex(), " ", (int)c.GetBHex(), " ", (int)c.GetAHex());
  // Writing one channel leaves the others alone.
  double m[4] = {c.r, c.g, c.b, c.a};
  s.repeat(1, 8, [&] {
    const int ch = (int)s.u(0, 3);
    if (s.b()) {
      const uint8_t h = s.byte();
      if (ch == 0) c.SetRHex(h);
      if (ch == 1) c.SetGHex(h);
      if (ch == 2) c.SetBHex(h);
      if (ch == 3) c.SetAHex(h);
      m[ch] = h / 255.0;
    } else {
      const float v = channel(s);
      if (ch == 0) c.SetR(v);
      if (ch == 1) c.SetG(v);
      if (ch == 2) c.SetB(v);
      if (ch == 3) c.SetA(v);
      m[ch] = trim(v);
    }
    is(c, m[0], m[1], m[2], m[3], "after a write");
    VP_CHECK(eq(c.GetR(), m[0]) && eq(c.GetG(), m[1]) && eq(c.GetB(), m[2]) && eq(c.GetA(), m[3]), "getters");
    const uint8_t hex[4] = {c.GetRHex(), c.GetGHex(), c.GetBHex(), c.GetAHex()};
    for (int k = 0; k < 4; ++k) VP_CHECK(std::fabs(hex[k] - 255 * m[k]) <= 0.501, "8-bit value ", (int)hex[k], " of ", m[k]);
  });
  const uint8_t h = s.byte();
  VP_CHECK(eq(ColorChannelFromHex(h), h / 255.0) && ColorChannelToHex(ColorChannelFromHex(h)) == h, "8-bit channel ", (int)h);
  VP_CHECK(std::fabs(ColorChannelToHex(r) - 255.0 * trim(r)) <= 0.501, "channel ", r);
}

VP_PROP(interpolate_color, 100000, 2000000) {
  if (s.b()) mixing<Msg>(s);
  else mixing<RGBAColor>(s);
}

VP_PROP(hot_to_cold, 100000, 2000000) {
  const double lo = s.b() ? 0.0 : s.real(-100, 100), span = s.b() ? 1.0 : s.generic(0.001, 200), hi = lo + span;
  const double v = s.b() ? lo + span * s.real(-0.5, 1.5) : lo + span * 0.25 * (double)s.u(0, 4);
  const Msg c = (lo == 0 && hi == 1 && s.b()) ? RGBAColorBuilder<Msg>::InterpolateHotToCold(v) : RGBAColorBuilder<Msg>::InterpolateHotToCold(v, lo, hi);
  const double t = std::min(1.0, std::max(0.0, (v - lo) / (hi - lo)));
  s.nontrivialIf(t > 0 && t < 1);
  const auto ramp = [](double x) { return std::min(1.0, std::max(0.0, x)); };
  // Blue, cyan, green, yellow, red at the quarters.
  const double r = ramp(4 * t - 2), g = t < 0.5 ? ramp(4 * t) : ramp(4 - 4 * t), b = ramp(2 - 4 * t);
  VP_CHECK(std::fabs(c.r - r) < 1e-4 && std::fabs(c.g - g) < 1e-4 && std::fabs(c.b - b) < 1e-4 && c.a == 1, "value ", v, " of ", lo, " to ", hi, ": ", show(c), " expected (", r, ",", g, ",", b, ",1)");
  for (float ch : {c.r, c.g, c.b}) VP_CHECK(ch >= 0 && ch <= 1, "channel ", ch);
}

VP_PROP(unique_colors, 20000, 200000) {
  const float alpha = (float)s.real(0, 1);
  const size_t n = s.u(1, 20);
  s.nontrivialIf(n > 1);
  UniqueColorGenerator<Msg> gen(alpha);
  std::vector<Msg> seen;
  for (size_t k = 1; k <= n; ++k) {
    const Msg c = GenerateUniqueColor<Msg>((uint32_t)k, alpha), d = gen.next();
    is(d, c.r, c.g, c.b, c.a, "generator");
    VP_CHECK(eq(c.a, alpha), "transparency ", c.a, " expected ", alpha);
    for (float ch : {c.r, c.g, c.b}) VP_CHECK(ch >= 0 && ch <= 1, "channel ", ch);
    for (size_t j = 0; j < seen.size(); ++j)
      VP_CHECK(ColorChannelToHex(seen[j].r) != ColorChannelToHex(c.r) || ColorChannelToHex(seen[j].g) != ColorChannelToHex(c.g) || ColorChannelToHex(seen[j].b) != ColorChannelToHex(c.b), "indices ", j + 1, " and ", k, " share ", show(c));
    seen.push_back(c);
  }
  is(GenerateUniqueColor<Msg>(0, alpha), 1, 1, 1, 0, "index 0");
  const Msg beyond = GenerateUniqueColor<Msg>((uint32_t)s.i(21, 4000000000ll), alpha);
  for (float ch : {beyond.r, beyond.g, beyond.b, beyond.a}) VP_CHECK(ch >= 0 && ch <= 1, "channel ", ch);
  VP_CHECK(eq(beyond.a, alpha), "transparency of an index beyond the table");
}
