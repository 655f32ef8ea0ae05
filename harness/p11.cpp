// P11: exponential family: accuracy against double, identities, domain edges.
#include "gen.hpp"
using namespace pbt;
static float span(Case& c, const char* n) {      // arguments spread over the interesting range of exp
    switch (c.below(4)) { case 0: return anyFloat(c, n); case 1: return recF(c, n, float(c.range(-150, 150)));
        case 2: return recF(c, n, float(int64_t(c.below(1u << 24)) - (1 << 23)) / 65536.0f); default: return finite(c, 8, n); }
}
LAW_W(expo, 3) { float x = span(c, "x"); c.payload(1); eqUlp(c, zcm::exp(x), std::exp(double(x)), 4, "exp"); eqUlp(c, zcm::exp2(x), std::exp2(double(x)), 4, "exp2");
    if (x == std::floor(x) && std::fabs(x) < 120) eqVal(c, zcm::exp2(x), std::ldexp(1.0f, int(x)), "exp2 of an integer"); }
LAW_W(logs, 3) {
    float x = c.coin() ? anyFloat(c, "x") : std::fabs(span(c, "x")); if (c.chance(4)) { x = 1.0f + float(int(c.range(-100, 100))) * 1.1920929e-7f; c.note("x", "%.9g", x); } c.payload(1);
    eqUlp(c, zcm::log(x), std::log(double(x)), 4, "log"); eqUlp(c, zcm::log2(x), std::log2(double(x)), 4, "log2");
    if (x > 0 && std::isfinite(x)) { int e; if (std::frexp(x, &e) == 0.5f) eqVal(c, zcm::log2(x), float(e - 1), "log2 of a power of two"); }
}
LAW_W(roots, 3) {
    float x = anyFloat(c, "x"); c.payload(1);
    if (x != 0) { eqUlp(c, zcm::sqrt(x), std::sqrt(double(x)), 1, "sqrt"); eqUlp(c, zcm::inversesqrt(x), 1 / std::sqrt(double(x)), 4, "inversesqrt"); }
    else { eqVal(c, zcm::sqrt(x), 0.0f, "sqrt(0)"); CHECK(std::isinf(zcm::inversesqrt(x)), "inversesqrt(0)"); }
    eqUlp(c, zcm::cbrt(x), std::cbrt(double(x)), 4, "cbrt");
    int k = int(c.range(-160, 160)); float q = float(k); eqVal(c, zcm::sqrt(q * q), std::fabs(q), "sqrt of a square"); eqUlp(c, zcm::cbrt(q * q * q), k, 1, "cbrt of a cube");
}
LAW_W(power, 3) {
    float x = c.coin() ? span(c, "x") : anyFloat(c, "x"), y = c.chance(3) ? anyFloat(c, "y") : c.coin() ? recF(c, "y", float(c.range(-20, 20))) : finite(c, 4, "y");
    if (std::isnan(x)) x = NAN; if (std::isnan(y)) y = NAN;     // quiet ones: pow(1, NaN) is 1
    eqUlp(c, zcm::pow(x, y), std::pow(double(x), double(y)), 4, "pow");
}
LAW_W(inverses, 2) {
    float x = finite(c, 3, "x"), p = std::fabs(finite(c, 20, "p")); c.require(p > 0 && std::fabs(x) < 60);
    near(c, zcm::log(zcm::exp(x)), x, 4 * EPS * (std::fabs(x) + 1), "log(exp(x))"); near(c, zcm::log2(zcm::exp2(x)), x, 4 * EPS * (std::fabs(x) + 1), "log2(exp2(x))");
    near(c, zcm::sqrt(p) * zcm::inversesqrt(p), 1, 8 * EPS, "sqrt * inversesqrt"); float q = zcm::cbrt(p); near(c, double(q) * q * q / p, 1, 16 * EPS, "cbrt^3");
    near(c, double(zcm::pow(p, 2.0f)) / (double(p) * p), 1, 8 * EPS, "pow(p,2)");
}
// the vector and quaternion overloads have the same accuracy in every component
template<class V, class F, class R> static void each(Case& c, const V& a, F f, R ref, int n, const char* what) { V r = f(a); for (unsigned i = 0; i < Tr<V>::N; ++i) eqUlp(c, at(r, i), ref(double(at(a, i))), n, what, int(i)); }
#define E1(fn, n, ref) each(c, x, [](const auto& v) { return zcm::fn(v); }, [](double d) -> double { return ref; }, n, #fn)
template<class V> static void overloads(Case& c) {
    V x = vecBy<V>(c, "x", [&] { float f = c.chance(3) ? anyFloat(c) : span(c, nullptr); return f == 0 ? 0.0f : f; });
    switch (c.below(4)) {
    case 0: E1(exp, 4, std::exp(d)); E1(exp2, 4, std::exp2(d)); break;
    case 1: E1(log, 4, std::log(d)); E1(log2, 4, std::log2(d)); break;
    case 2: E1(sqrt, 1, std::sqrt(d)); E1(inversesqrt, 4, 1 / std::sqrt(d)); break;
    case 3: E1(cbrt, 4, std::cbrt(d)); break;
    }
}
template<class V> static void powers(Case& c) {
    V x = vecBy<V>(c, "x", [&] { float f = c.coin() ? span(c, nullptr) : anyFloat(c); return std::isnan(f) ? NAN : f; }), y = vecBy<V>(c, "y", [&] { float f = c.chance(3) ? anyFloat(c) : c.coin() ? float(c.range(-20, 20)) : finite(c, 4); return std::isnan(f) ? NAN : f; });
    V r = zcm::pow(x, y); for (unsigned i = 0; i < Tr<V>::N; ++i) eqUlp(c, at(r, i), std::pow(double(at(x, i)), double(at(y, i))), 4, "pow", int(i));
}
LAW(vec2s) { overloads<vec2>(c); } LAW(vec3s) { overloads<vec3>(c); } LAW(vec4s) { overloads<vec4>(c); } LAW(quats) { overloads<quat>(c); }
LAW(pow2) { powers<vec2>(c); } LAW(pow3) { powers<vec3>(c); } LAW(pow4) { powers<vec4>(c); }
LAW(powQuat) {
    quat x = vecBy<quat>(c, "x", [&] { float f = c.coin() ? span(c, nullptr) : anyFloat(c); return std::isnan(f) ? NAN : f; }); float y = c.coin() ? float(c.range(-20, 20)) : finite(c, 4, "y"); c.note("y", "%.9g", y);
    quat r = zcm::pow(x, y); for (unsigned i = 0; i < 4; ++i) eqUlp(c, at(r, i), std::pow(double(at(x, i)), double(y)), 4, "pow(quat, y)", int(i));
}
LAW_SWEEP(everyExp) { float x = everyFloat(c); double d = x; eqUlp(c, zcm::exp(x), std::exp(d), 4, "exp"); eqUlp(c, zcm::exp2(x), std::exp2(d), 4, "exp2"); }
LAW_SWEEP(everyLog) { float x = everyFloat(c); double d = x; eqUlp(c, zcm::log(x), std::log(d), 4, "log"); eqUlp(c, zcm::log2(x), std::log2(d), 4, "log2"); }
LAW_SWEEP(everyRoot) {
    float x = everyFloat(c); double d = x; eqUlp(c, zcm::cbrt(x), std::cbrt(d), 4, "cbrt"); if (x == 0) return;
    eqUlp(c, zcm::sqrt(x), std::sqrt(d), 1, "sqrt"); eqUlp(c, zcm::inversesqrt(x), 1 / std::sqrt(d), 4, "inversesqrt");
}
LAW_SWEEP(everySquare) { float x = everyFloat(c); if (std::isnan(x)) x = NAN; double d = x; eqUlp(c, zcm::pow(x, 2.0f), std::pow(d, 2.0), 4, "pow(x, 2)"); eqUlp(c, zcm::pow(x, -0.4166666f), std::pow(d, double(-0.4166666f)), 4, "pow(x, -0.4166666)"); eqUlp(c, zcm::pow(1.75f, x), std::pow(1.75, d), 4, "pow(1.75, x)"); }
