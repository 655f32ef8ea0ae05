// P08: the scalar common functions (rounding, clamping, interpolation, classification).
#include "gen.hpp"
using namespace pbt;

// reference rounding done on integers, not through libm
static double refFloor(double x) { if (!(std::fabs(x) < 9e15)) return x; int64_t k = int64_t(x); return double(k) > x ? double(k - 1) : double(k); }
static double refCeil(double x) { return -refFloor(-x); }
static double refTrunc(double x) { return x < 0 ? refCeil(x) : refFloor(x); }
static double refRound(double x) { if (!(std::fabs(x) < 9e15)) return x; double a = std::fabs(x), f = refFloor(a); double r = a - f >= 0.5 ? f + 1 : f; return x < 0 ? -r : r; }
static double refEven(double x) { if (!(std::fabs(x) < 9e15)) return x; double f = refFloor(x), d = x - f; if (d < 0.5) return f; if (d > 0.5) return f + 1; return std::fmod(f, 2) == 0 ? f : f + 1; }

// values around integers and halves, where rounding functions differ
static float roundy(Case& c, const char* name) {
    if (c.below(3)) return anyFloat(c, name);
    float v = float(c.range(-2000, 2000)) * (c.coin() ? 0.5f : 4096.5f);
    switch (c.below(3)) { case 1: v = std::nextafterf(v, INFINITY); break; case 2: v = std::nextafterf(v, -INFINITY); break; }
    return recF(c, name, v);
}
LAW_W(rounding, 3) {
    float x = roundy(c, "x"); c.payload(1);
    if (std::isnan(x)) { CHECK(std::isnan(zcm::floor(x)) && std::isnan(zcm::ceil(x)) && std::isnan(zcm::trunc(x)) && std::isnan(zcm::round(x)) && std::isnan(zcm::roundEven(x)), "NaN in, number out"); return; }
    eqVal(c, zcm::floor(x), float(refFloor(x)), "floor"); eqVal(c, zcm::ceil(x), float(refCeil(x)), "ceil");
    eqVal(c, zcm::trunc(x), float(refTrunc(x)), "trunc"); eqVal(c, zcm::round(x), float(refRound(x)), "round");
    eqVal(c, zcm::roundEven(x), float(refEven(x)), "roundEven");
}
LAW_W(fract, 2) {
    float x = roundy(c, "x"); c.payload(1); c.require(std::isfinite(x));
    float f = zcm::fract(x);
    eqVal(c, f, float(double(x) - refFloor(x)), "fract");      // exact in double, rounded once
    CHECK(f >= 0.0f && f <= 1.0f, "fract(%a) = %a", x, f);
}
LAW_W(absolute, 1) {
    float x = anyFloat(c, "x"); c.payload(1);
    float a = zcm::abs(x);
    if (std::isnan(x)) CHECK(std::isnan(a), "abs(NaN)"); else eqBits(c, a, fromBits(bitsOf(x) & 0x7fffffffu), "abs");
    int i = anyInt(c, "i"); if (i != INT32_MIN) eqInt(c, zcm::abs(i), i < 0 ? -int64_t(i) : i, "abs(int)");
}
LAW_W(signs, 1) {
    float x = anyFloat(c, "x"); c.payload(1); int i = anyInt(c, "i");
    if (!std::isnan(x)) { eqVal(c, zcm::sign(x), float((x > 0) - (x < 0)), "sign"); eqVal(c, zcm::signNotZero(x), x < 0 ? -1.0f : 1.0f, "signNotZero"); }
    eqInt(c, zcm::sign(i), (i > 0) - (i < 0), "sign(int)"); eqInt(c, zcm::signNotZero(i), i < 0 ? -1 : 1, "signNotZero(int)");
}
LAW_W(minmax, 3) {
    float x = anyFloat(c, "x"), y = c.chance(6) ? x : anyFloat(c, "y"); c.payload(1);
    // GLSL order: the first argument is returned unless the second is strictly beyond it, so NaN as y yields x
    eqVal(c, zcm::min(x, y), y < x ? y : x, "min"); eqVal(c, zcm::max(x, y), x < y ? y : x, "max");
    int i = anyInt(c, "i"), j = anyInt(c, "j");
    eqInt(c, zcm::min(i, j), i < j ? i : j, "min(int)"); eqInt(c, zcm::max(i, j), i > j ? i : j, "max(int)");
}
LAW_W(clamp, 3) {
    float x = anyFloat(c, "x"), a = anyFloat(c, "lo"), b = anyFloat(c, "hi"); if (a > b) std::swap(a, b); c.require(!std::isnan(a) && !std::isnan(b));
    float r = zcm::clamp(x, a, b);
    if (std::isnan(x)) CHECK(std::isnan(r) || (r >= a && r <= b), "clamp(NaN, %a, %a) = %a", a, b, r);
    else eqVal(c, r, x < a ? a : x > b ? b : x, "clamp");
    int i = anyInt(c, "i"), lo = anyInt(c, "lo"), hi = anyInt(c, "hi"); if (lo > hi) std::swap(lo, hi);
    eqInt(c, zcm::clamp(i, lo, hi), i < lo ? lo : i > hi ? hi : i, "clamp(int)");
}
LAW_W(fma, 2) {
    float a = anyFloat(c, "a"), b = anyFloat(c, "b"), d = anyFloat(c, "c");
    if (c.chance(3)) { d = -(a * b); c.note("c:=-ab", "%a", d); }     // only a single rounding leaves the product's error
    eqVal(c, zcm::fma(a, b, d), ::fmaf(a, b, d), "fma");
}
LAW_W(modExact, 2) {     // multiples of 1/8: every intermediate is exact, so is the result
    int kx = int(c.range(-4096, 4096)), ky = int(c.range(-512, 512)); if (!ky) ky = 1;
    float x = recF(c, "x", kx / 8.0f), y = recF(c, "y", ky / 8.0f); c.payload(1);
    int m = kx % ky; if (m && ((m < 0) != (ky < 0))) m += ky;
    eqVal(c, zcm::mod(x, y), m / 8.0f, "mod");
}
LAW_W(modGeneral, 2) {
    int e2 = c.pick({20, 20, 120}); float x = finite(c, e2, "x"), y = finite(c, e2, "y"); c.require(y != 0 && std::fabs(double(x) / y) < 3e38);
    double r = zcm::mod(x, y), q = refFloor(double(x) / y), w = double(x) - q * double(y), tol = 4 * EPS * (std::fabs(double(x)) + 2 * std::fabs(double(y))) + 1e-44;
    double e = std::fabs(r - w); e = std::min(e, std::fabs(std::fabs(r - w) - std::fabs(double(y))));   // a quotient rounded onto an integer moves by one y
    CHECK(e <= tol, "mod(%a, %a) = %a, exactly %a", x, y, r, w);
    double f = r / y; CHECK(f >= -tol / std::fabs(double(y)) && f <= 1 + tol / std::fabs(double(y)), "mod(%a, %a) = %a outside [0, y]", x, y, r);
}
LAW_W(mix, 3) {
    int e = c.pick({20, 20, 90}); float x = finite(c, e, "x"), y = c.chance(6) ? x : finite(c, e, "y"), t = c.coin() ? float(c.below(65537)) / 65536.0f : finite(c, c.pick({4, 30}), "t"); c.note("t", "%.9g", t);
    double w = double(x) + double(t) * (double(y) - x), tol = 4 * EPS * (std::fabs(double(x)) + std::fabs(double(y))) * (1 + std::fabs(double(t))) + 1e-40;
    near(c, zcm::mix(x, y, t), w, tol, "mix");
    eqVal(c, zcm::mix(x, y, 0.0f), x, "mix at 0"); near(c, zcm::mix(x, y, 1.0f), y, 4 * EPS * (std::fabs(double(x)) + std::fabs(double(y))) + 1e-40, "mix at 1");
    eqVal(c, zcm::mix(x, x, t), x, "mix of equal ends");
    float a = anyFloat(c, "a"), b = anyFloat(c, "b"); bool k = c.coin();
    eqBits(c, zcm::mix(a, b, k), k ? b : a, "mix(bool)");
}
LAW_W(step, 2) {
    float e = anyFloat(c, "edge"), x = c.chance(5) ? e : anyFloat(c, "x"); c.payload(1); c.require(!std::isnan(e) && !std::isnan(x));
    eqVal(c, zcm::step(e, x), x < e ? 0.0f : 1.0f, "step");
}
LAW_W(smoothstep, 3) {
    int e = c.pick({12, 12, 100}); float a = finite(c, e, "edge0"), b = finite(c, e, "edge1"), x; if (a > b) std::swap(a, b); c.require(a < b);
    switch (c.below(4)) { case 0: x = finite(c, e, "x"); break; case 1: x = c.coin() ? a : b; break;
                          default: x = float(a + (double(b) - a) * (double(c.below(1001)) / 1000)); }
    c.note("x", "%.9g", x);
    float r = zcm::smoothstep(a, b, x);
    CHECK(r >= 0.0f && r <= 1.0f, "smoothstep(%a, %a, %a) = %a", a, b, x, r);
    if (x <= a) eqVal(c, r, 0.0f, "smoothstep at or below the first edge");
    else if (x >= b) eqVal(c, r, 1.0f, "smoothstep at or beyond the second edge");
    else { double t = (double(x) - a) / (double(b) - a), w = t * t * (3 - 2 * t); near(c, r, w, 2e-6 * w + 1e-37, "smoothstep"); }
}
LAW_W(classify, 1) {
    float x = anyFloat(c, "x"); c.payload(1); uint32_t u = bitsOf(x) & 0x7fffffffu;
    CHECK(zcm::isnan(x) == (u > 0x7f800000u), "isnan(%a)", x); CHECK(zcm::isinf(x) == (u == 0x7f800000u), "isinf(%a)", x);
}

LAW_SWEEP(everyRounding) {
    float x = everyFloat(c); double d = x;
    if (std::isnan(x)) { CHECK(std::isnan(zcm::floor(x)) && std::isnan(zcm::ceil(x)) && std::isnan(zcm::trunc(x)) && std::isnan(zcm::round(x)) && std::isnan(zcm::roundEven(x)), "NaN in, number out"); return; }
    eqVal(c, zcm::floor(x), float(refFloor(d)), "floor"); eqVal(c, zcm::ceil(x), float(refCeil(d)), "ceil"); eqVal(c, zcm::trunc(x), float(refTrunc(d)), "trunc");
    eqVal(c, zcm::round(x), float(refRound(d)), "round"); eqVal(c, zcm::roundEven(x), float(refEven(d)), "roundEven");
}
LAW_SWEEP(everyOther) {
    float x = everyFloat(c); double d = x; uint32_t u = bitsOf(x) & 0x7fffffffu;
    CHECK(zcm::isnan(x) == (u > 0x7f800000u), "isnan(%a)", x); CHECK(zcm::isinf(x) == (u == 0x7f800000u), "isinf(%a)", x);
    if (std::isnan(x)) { CHECK(std::isnan(zcm::abs(x)), "abs(NaN)"); return; }
    eqBits(c, zcm::abs(x), fromBits(u), "abs"); eqVal(c, zcm::sign(x), float((x > 0) - (x < 0)), "sign"); eqVal(c, zcm::signNotZero(x), x < 0 ? -1.0f : 1.0f, "signNotZero");
    eqVal(c, zcm::step(0.25f, x), x < 0.25f ? 0.0f : 1.0f, "step"); eqVal(c, zcm::clamp(x, -1.5f, 3.0f), x < -1.5f ? -1.5f : x > 3.0f ? 3.0f : x, "clamp");
    if (std::isfinite(x)) eqVal(c, zcm::fract(x), float(d - refFloor(d)), "fract");
}
