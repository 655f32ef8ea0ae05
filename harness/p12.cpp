// P12: trigonometric and hyperbolic functions, degrees and radians: accuracy against double, ranges, identities.
#include "gen.hpp"
using namespace pbt;
static const double PI = 3.14159265358979323846;
static float angle(Case& c, const char* n) {
    switch (c.below(5)) { case 0: return anyFloat(c, n); case 1: return recF(c, n, float(PI / 12 * double(c.range(-48, 48))));
        case 2: { float v = float(PI / 2 * double(c.range(-8, 8))); return recF(c, n, c.coin() ? std::nextafterf(v, INFINITY) : std::nextafterf(v, -INFINITY)); }
        default: return finite(c, 6, n); }
}
static float unitish(Case& c, const char* n) {
    switch (c.below(4)) { case 0: return anyFloat(c, n); case 1: { float v = std::nextafterf(1.0f, c.coin() ? 2.0f : 0.0f); return recF(c, n, c.coin() ? v : -v); }
        default: return recF(c, n, float(int64_t(c.below(2097153)) - 1048576) / 1048576.0f); }
}
LAW_W(circular, 4) {
    float x = angle(c, "x"); c.payload(1); double d = x;
    eqUlp(c, zcm::sin(x), std::sin(d), 4, "sin"); eqUlp(c, zcm::cos(x), std::cos(d), 4, "cos"); eqUlp(c, zcm::tan(x), std::tan(d), 4, "tan");
}
LAW_W(inverseCircular, 4) {
    float x = unitish(c, "x"); c.payload(1); double d = x;
    eqUlp(c, zcm::asin(x), std::asin(d), 4, "asin"); eqUlp(c, zcm::acos(x), std::acos(d), 4, "acos");
    float y = anyFloat(c, "y"); eqUlp(c, zcm::atan(y), std::atan(double(y)), 4, "atan");
}
LAW_W(atan2, 4) {
    float y = anyFloat(c, "y"), x = c.chance(5) ? y : anyFloat(c, "x"); c.payload(1);
    eqUlp(c, zcm::atan(y, x), std::atan2(double(y), double(x)), 4, "atan(y,x)");
    float t = finite(c, 0, "t"); double a = t; if (std::fabs(a) < 3) near(c, zcm::atan(zcm::sin(t), zcm::cos(t)), a, 8 * EPS * (1 + std::fabs(a)), "atan(sin, cos)");
}
LAW_W(hyperbolic, 4) {
    float x = angle(c, "x"); c.payload(1); double d = x;
    eqUlp(c, zcm::sinh(x), std::sinh(d), 5, "sinh"); eqUlp(c, zcm::cosh(x), std::cosh(d), 5, "cosh"); eqUlp(c, zcm::tanh(x), std::tanh(d), 5, "tanh");
    eqUlp(c, zcm::asinh(x), std::asinh(d), 5, "asinh");
    float p = c.coin() ? 1.0f + std::fabs(finite(c, 10, "p")) : anyFloat(c, "p"); eqUlp(c, zcm::acosh(p), std::acosh(double(p)), 5, "acosh");
    float u = unitish(c, "u"); eqUlp(c, zcm::atanh(u), std::atanh(double(u)), 5, "atanh");
}
LAW_W(conversion, 3) {
    float x = c.chance(4) ? anyFloat(c, "x") : c.coin() ? recF(c, "x", float(c.range(-720, 720))) : angle(c, "x"); c.payload(1);
    eqUlp(c, zcm::degrees(x), double(x) * 180 / PI, 4, "degrees"); eqUlp(c, zcm::radians(x), double(x) * PI / 180, 4, "radians");
    if (std::fabs(x) < 1e36f && (std::fabs(x) > 1e-34f || x == 0)) {
        near(c, zcm::degrees(x), double(x) * 180 / PI, std::fabs(double(x)) * 180 / PI * 4 * EPS, "degrees");
        near(c, zcm::radians(x), double(x) * PI / 180, std::fabs(double(x)) * PI / 180 * 4 * EPS, "radians");
        near(c, zcm::degrees(zcm::radians(x)), x, std::fabs(double(x)) * 8 * EPS, "degrees(radians(x))");
        CHECK(zcm::degrees(-x) == -zcm::degrees(x) && zcm::radians(-x) == -zcm::radians(x), "odd");
    }
}
LAW_W(identities, 3) {
    float x = angle(c, "x"); c.payload(1); c.require(std::isfinite(x)); double s = zcm::sin(x), k = zcm::cos(x);
    near(c, s * s + k * k, 1, 8 * EPS, "sin^2+cos^2"); CHECK(std::fabs(s) <= 1 && std::fabs(k) <= 1, "range");
    CHECK(zcm::sin(-x) == -zcm::sin(x) && zcm::cos(-x) == zcm::cos(x), "parity");
    float u = unitish(c, "u"); if (std::fabs(u) <= 1) { near(c, zcm::sin(zcm::asin(u)), u, 8 * EPS, "sin(asin)"); near(c, zcm::cos(zcm::acos(u)), u, 8 * EPS, "cos(acos)");
        near(c, double(zcm::asin(u)) + zcm::acos(u), PI / 2, 8 * EPS, "asin+acos"); CHECK(zcm::acos(u) >= 0 && zcm::acos(u) <= float(PI) * 1.0000002f, "acos range"); }
}
// the vector overloads have the same accuracy in every component
template<class V, class F, class R> static void each(Case& c, const V& a, F f, R ref, int n, const char* what) { V r = f(a); for (unsigned i = 0; i < Tr<V>::N; ++i) eqUlp(c, at(r, i), ref(double(at(a, i))), n, what, int(i)); }
#define E1(fn, n) each(c, x, [](const auto& v) { return zcm::fn(v); }, [](double d) { return std::fn(d); }, n, #fn)
template<class V> static void overloads(Case& c) {
    unsigned k = unsigned(c.below(6)); V x = k == 1 ? vecBy<V>(c, "x", [&] { return unitish(c, nullptr); }) : vecBy<V>(c, "x", [&] { return angle(c, nullptr); });
    switch (k) {
    case 0: E1(sin, 4); E1(cos, 4); E1(tan, 4); break;
    case 1: E1(asin, 4); E1(acos, 4); E1(atanh, 5); break;
    case 2: E1(atan, 4); E1(sinh, 5); E1(cosh, 5); break;
    case 3: E1(tanh, 5); E1(asinh, 5); E1(acosh, 5); break;
    case 4: { V y = vecBy<V>(c, "y", [&] { return anyFloat(c); }); if (c.chance(4)) y = x;
              V r = zcm::atan(y, x); for (unsigned i = 0; i < Tr<V>::N; ++i) eqUlp(c, at(r, i), std::atan2(double(at(y, i)), double(at(x, i))), 4, "atan(y,x)", int(i)); break; }
    case 5: { V dg = zcm::degrees(x), rd = zcm::radians(x);
              for (unsigned i = 0; i < Tr<V>::N; ++i) { double d = at(x, i); if (!(std::fabs(d) < 1e36 && (std::fabs(d) > 1e-34 || d == 0))) continue;
                  near(c, at(dg, i), d * 180 / PI, std::fabs(d) * 180 / PI * 4 * EPS, "degrees", int(i)); near(c, at(rd, i), d * PI / 180, std::fabs(d) * PI / 180 * 4 * EPS, "radians", int(i)); } break; }
    }
}
LAW_W(vec2s, 2) { overloads<vec2>(c); } LAW_W(vec3s, 2) { overloads<vec3>(c); } LAW_W(vec4s, 2) { overloads<vec4>(c); }
#define S1(fn, n) eqUlp(c, zcm::fn(x), std::fn(d), n, #fn)
LAW_SWEEP(everyCircular) { float x = everyFloat(c); double d = x; S1(sin, 4); S1(cos, 4); S1(tan, 4); }
LAW_SWEEP(everyInverse) { float x = everyFloat(c); double d = x; S1(asin, 4); S1(acos, 4); S1(atan, 4); eqUlp(c, zcm::atan(x, 3.0f), std::atan2(d, 3.0), 4, "atan(x, 3)"); eqUlp(c, zcm::atan(-1e-3f, x), std::atan2(double(-1e-3f), d), 4, "atan(-0.001, x)"); }
LAW_SWEEP(everyHyperbolic) { float x = everyFloat(c); double d = x; S1(sinh, 5); S1(cosh, 5); S1(tanh, 5); }
LAW_SWEEP(everyArea) { float x = everyFloat(c); double d = x; S1(asinh, 5); S1(acosh, 5); S1(atanh, 5); }
LAW_SWEEP(everyConversion) { float x = everyFloat(c); double d = x; eqUlp(c, zcm::degrees(x), d * 180 / PI, 4, "degrees"); eqUlp(c, zcm::radians(x), d * PI / 180, 4, "radians"); }
