// P27: colour space conversions follow the sRGB transfer curve on the colour channels and leave alpha alone.
#include "gen.hpp"
using namespace pbt;
static float chan(Case& c) {
    float v;
    switch (c.below(7)) {
    case 0: v = float(c.below(256)) / 255.0f; break;
    case 1: { static const float S[] = {0.0f, 1.0f, 0.5f, 0.0031308f, 0.04045f, 0.00313066844f, 0.0404482362771082f, 0.18f, 1e-3f, 1e-5f, 0.999999f}; v = S[c.below(11)]; break; }
    case 2: { float s = c.coin() ? 0.0031308f : 0.04045f; v = fromBits(bitsOf(s) + uint32_t(int32_t(c.range(0, 64)) - 32)); break; }
    case 3: v = std::ldexp(1.0f + float(c.below(1u << 23)) / float(1 << 23), -int(c.range(1, 20))); break;
    default: v = float(c.below(1u << 24)) / float(1 << 24);
    }
    return recF(c, "chan", v);
}
static float gammaOf(Case& c) { float g; switch (c.below(3)) { case 0: g = 2.4f; break; case 1: g = c.pick({1.0f, 1.8f, 2.2f, 2.4f, 2.6f, 3.0f}); break; default: g = 1.0f + float(c.below(1u << 16)) / 32768.0f; } return recF(c, "gamma", g); }
static double encode(double x, double g) { return 1.055 * std::pow(x, 1 / g) - 0.055; }
static double decode(double x, double g) { return std::pow((x + 0.055) / 1.055, g); }
static const double LT = double(0.0031308f), ST = double(0.04045f);
static double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static void encoded(Case& c, float got, float x, double g, const char* what, int i) {
    double y = clamp01(double(x)), lin = y * 12.92, cur = encode(y, g), tol = 3e-6;
    bool L = std::fabs(double(got) - lin) <= tol, C = std::fabs(double(got) - cur) <= tol; ++c.oracle;
    bool ok = std::fabs(y - LT) < 1e-6 ? L || C : y < LT ? L : C;
    if (!ok) throw Fail{fmt("%s[%d] of %.9g with gamma %.9g: got %.9g expected %.9g", what, i, double(x), g, double(got), y < LT ? lin : cur)};
}
static void decoded(Case& c, float got, float x, double g, const char* what, int i) {
    double lin = double(x) / 12.92, cur = decode(double(x), g);
    bool L = std::fabs(double(got) - lin) <= 4 * EPS * std::fabs(lin) + 1e-38, C = std::fabs(double(got) - cur) <= (3e-6 + (x > 1 ? 2e-7 * std::log(double(x)) : 0)) * cur; ++c.oracle;
    bool ok = std::fabs(double(x) - ST) < 1e-6 ? L || C : double(x) <= ST ? L : C;
    if (!ok) throw Fail{fmt("%s[%d] of %.9g with gamma %.9g: got %.9g expected %.9g", what, i, double(x), g, double(got), double(x) <= ST ? lin : cur)};
}
template<class V> V colour(Case& c, const char* n, bool wide = false) {
    unsigned w = wide ? unsigned(c.below(4)) : 0;       // outside [0,1]: sometimes, never inside, all negative
    V v = vecBy<V>(c, n, [&] { return w == 3 ? finite(c, 24) : w == 2 ? negOf(finite(c, 8)) : w == 1 && c.chance(4) ? finite(c, 8) : chan(c); });
    if (Tr<V>::N == 4) { put(v, 3, c.coin() ? chan(c) : anyFloat(c, "alpha")); shown(c, n, v); }
    return v;
}
// encoding clamps: infinities are the ends of the range, also next to ordinary channels
template<class V> void infinite(Case& c) {
    V v = colour<V>(c, "linear", true); unsigned k = 1 + unsigned(c.below(7)); for (unsigned i = 0; i < 3; ++i) if (k >> i & 1) put(v, i, c.coin() ? INFINITY : -INFINITY); shown(c, "linear", v); c.payload(k); float g = gammaOf(c); V r = zcm::convertLinearToSRGB(v, g), s = zcm::convertLinearToSRGB(v);
    for (unsigned i = 0; i < 3; ++i) { encoded(c, at(r, i), at(v, i), double(g), "convertLinearToSRGB", int(i)); encoded(c, at(s, i), at(v, i), 2.4, "convertLinearToSRGB (standard)", int(i)); }
}
template<class V> void alpha(Case& c, const V& r, const V& v, const char* what) { if (Tr<V>::N == 4) { eqBits(c, at(r, 3), at(v, 3), what, 3); } }
template<class V> void toSRGB(Case& c) {
    V v = colour<V>(c, "linear", true); float g = gammaOf(c); V r = zcm::convertLinearToSRGB(v, g);
    for (unsigned i = 0; i < 3; ++i) { encoded(c, at(r, i), at(v, i), double(g), "convertLinearToSRGB", int(i)); CHECK(g < 2.4f || (at(r, i) >= -1e-6f && at(r, i) <= 1.000001f), "outside [0,1]: %a", at(r, i)); }
    alpha(c, r, v, "alpha after convertLinearToSRGB");
}
template<class V> void toSRGBStandard(Case& c) {
    V v = colour<V>(c, "linear", true); V r = zcm::convertLinearToSRGB(v);
    for (unsigned i = 0; i < 3; ++i) { encoded(c, at(r, i), at(v, i), 2.4, "convertLinearToSRGB (standard)", int(i)); CHECK(at(r, i) >= -1e-6f && at(r, i) <= 1.000001f, "outside [0,1]: %a", at(r, i)); }
    alpha(c, r, v, "alpha after convertLinearToSRGB (standard)");
    V d = zcm::convertSRGBToLinear(r); for (unsigned i = 0; i < 3; ++i) { double x = clamp01(double(at(v, i))); if (std::fabs(x - LT) > 1e-5) near(c, at(d, i), x, 3e-5, "linear -> sRGB -> linear (standard)", int(i)); }
}
template<class V> void toLinear(Case& c) {
    V v = colour<V>(c, "srgb", true); float g = gammaOf(c); V r = zcm::convertSRGBToLinear(v, g), s = zcm::convertSRGBToLinear(v);
    for (unsigned i = 0; i < 3; ++i) { decoded(c, at(r, i), at(v, i), double(g), "convertSRGBToLinear", int(i)); decoded(c, at(s, i), at(v, i), 2.4, "convertSRGBToLinear (standard)", int(i)); }
    alpha(c, r, v, "alpha after convertSRGBToLinear"); alpha(c, s, v, "alpha after convertSRGBToLinear (standard)");
}
template<class V> void roundTrip(Case& c) {
    V v = colour<V>(c, "srgb"); bool std24 = c.coin(); float g = std24 ? 2.4f : gammaOf(c);
    V lin = std24 ? zcm::convertSRGBToLinear(v) : zcm::convertSRGBToLinear(v, g), back = zcm::convertLinearToSRGB(lin, g), lin2 = zcm::convertSRGBToLinear(back, g);
    for (unsigned i = 0; i < 3; ++i) { double x = double(at(v, i)), l = double(at(lin, i)); if (std::fabs(x - ST) < 1e-4 || std::fabs(l - LT) < 1e-5 || (g != 2.4f && (x <= ST) != (l < LT))) continue;
        near(c, at(back, i), x, 1e-5, "sRGB -> linear -> sRGB", int(i)); near(c, at(lin2, i), l, 3e-5, "linear -> sRGB -> linear", int(i)); }
    alpha(c, back, v, "alpha after a round trip");
}
template<class V> void monotone(Case& c) {     // one grey ramp: order of brightness survives; channels do not mix
    V a = colour<V>(c, "a"), b = a; unsigned i = unsigned(c.below(3)); float x = chan(c); put(b, i, x); shown(c, "b", b); float g = gammaOf(c);
    V ra = zcm::convertLinearToSRGB(a, g), rb = zcm::convertLinearToSRGB(b, g), la = zcm::convertSRGBToLinear(a, g), lb = zcm::convertSRGBToLinear(b, g), qa = zcm::convertLinearToSRGB(a), qb = zcm::convertLinearToSRGB(b);
    for (unsigned k = 0; k < Tr<V>::N; ++k) if (k != i) { eqBits(c, at(rb, k), at(ra, k), "an unrelated channel changed", int(k)); eqBits(c, at(lb, k), at(la, k), "an unrelated channel changed", int(k)); eqBits(c, at(qb, k), at(qa, k), "an unrelated channel changed", int(k)); }
    bool acrossL = (double(at(a, i)) < LT) != (double(x) < LT), acrossS = (double(at(a, i)) <= ST) != (double(x) <= ST);
    if (x > at(a, i)) { if (!acrossL || g == 2.4f) CHECK(at(rb, i) >= at(ra, i) - 2e-6f, "encoding is not monotone"); if (!acrossS || g == 2.4f) CHECK(at(lb, i) >= at(la, i) - 2e-6f, "decoding is not monotone"); }
}
LAW(toSRGB3) { toSRGB<vec3>(c); } LAW(toSRGB4) { toSRGB<vec4>(c); } LAW(toSRGBstd3) { toSRGBStandard<vec3>(c); } LAW(toSRGBstd4) { toSRGBStandard<vec4>(c); }
LAW(infinite3) { infinite<vec3>(c); } LAW(infinite4) { infinite<vec4>(c); }
LAW(toLinear3) { toLinear<vec3>(c); } LAW(toLinear4) { toLinear<vec4>(c); } LAW(roundTrip3) { roundTrip<vec3>(c); } LAW(roundTrip4) { roundTrip<vec4>(c); }
LAW(channels3) { monotone<vec3>(c); } LAW(channels4) { monotone<vec4>(c); }
LAW_SWEEP(everyChannel) {     // the standard curves, one channel, all floats; the channel moves between the three positions
    float x = everyFloat(c); if (std::isnan(x)) return; unsigned i = bitsOf(x) % 3; vec3 v = mk<vec3>({{0.5f, 0.25f, 0.75f}}); put(v, i, x);
    encoded(c, at(zcm::convertLinearToSRGB(v), i), x, 2.4, "convertLinearToSRGB (standard)", int(i));
    if (x > -0.05f && x < 1e15f) decoded(c, at(zcm::convertSRGBToLinear(v), i), x, 2.4, "convertSRGBToLinear (standard)", int(i)); else if (std::isfinite(x) && x < 0) eqUlp(c, at(zcm::convertSRGBToLinear(v), i), double(x) / 12.92, 4, "convertSRGBToLinear (standard)", int(i));
}
