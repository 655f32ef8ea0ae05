// P29: drop-in compatibility with GLM: the same call on the same values gives the same result up to rounding.
#define GLM_ENABLE_EXPERIMENTAL
#define GLM_FORCE_XYZW_ONLY
#include <glm/glm.hpp>
#include <glm/gtc/color_space.hpp>
#include <glm/gtc/constants.hpp>
#include <glm/gtc/matrix_inverse.hpp>
#include <glm/gtc/matrix_transform.hpp>
#include <glm/gtc/quaternion.hpp>
#include <glm/gtc/type_ptr.hpp>
#include <glm/gtx/component_wise.hpp>
#include <glm/gtx/norm.hpp>
#include <glm/gtx/quaternion.hpp>
#include "mat.hpp"
using namespace pbt;
template<class Z> struct G;
template<> struct G<vec2> { using F = glm::vec2; using D = glm::dvec2; }; template<> struct G<vec3> { using F = glm::vec3; using D = glm::dvec3; }; template<> struct G<vec4> { using F = glm::vec4; using D = glm::dvec4; };
template<> struct G<ivec2> { using F = glm::ivec2; }; template<> struct G<ivec3> { using F = glm::ivec3; }; template<> struct G<ivec4> { using F = glm::ivec4; };
template<> struct G<bvec2> { using F = glm::bvec2; }; template<> struct G<bvec3> { using F = glm::bvec3; }; template<> struct G<bvec4> { using F = glm::bvec4; };
template<> struct G<quat> { using F = glm::quat; using D = glm::dquat; };
template<> struct G<mat2> { using F = glm::mat2; using D = glm::dmat2; }; template<> struct G<mat3> { using F = glm::mat3; using D = glm::dmat3; }; template<> struct G<mat4> { using F = glm::mat4; using D = glm::dmat4; };
template<class Z> typename G<Z>::F g(const Z& z) { typename G<Z>::F f; static_assert(sizeof f == sizeof z, "layout"); memcpy((void*)&f, (const void*)&z, sizeof f); return f; }
template<class Z> typename G<Z>::D gd(const Z& z) { return typename G<Z>::D(g(z)); }
template<class Z> Z z(const typename G<Z>::F& f) { Z r; memcpy((void*)&r, (const void*)&f, sizeof r); return r; }
static const char* W;     // name of the function under comparison
static void sc(Case& c, float got, double want, double tol, int i = -1) { ++c.oracle; if (std::isnan(got) && std::isnan(want)) return; if (double(got) == want) return; if (!(std::fabs(double(got) - want) <= tol)) throw Fail{fmt("%s[%d]: zcm %.9g, GLM %.9g, tolerance %.3g", W, i, double(got), want, tol)}; }
template<class Z> void cmp(Case& c, const char* what, const Z& got, const typename G<Z>::F& want, double scale, double k) { W = what; Z w = z<Z>(want); for (unsigned i = 0; i < Tr<Z>::N; ++i) sc(c, at(got, i), double(at(w, i)), k * EPS * (scale + std::fabs(double(at(w, i)))), int(i)); }
template<class Z> void cmpI(Case& c, const char* what, const Z& got, const typename G<Z>::F& want) { W = what; Z w = z<Z>(want); for (unsigned i = 0; i < Tr<Z>::N; ++i) eqInt(c, int64_t(at(got, i)), int64_t(at(w, i)), what, int(i)); }
static void cmp(Case& c, const char* what, float got, float want, double scale, double k) { W = what; sc(c, got, double(want), k * EPS * (scale + std::fabs(double(want)))); }
template<class Z> double mx(const Z& v) { double m = 0; for (unsigned i = 0; i < Tr<Z>::N; ++i) m = std::max(m, std::fabs(double(at(v, i)))); return m; }
template<class Z, class F> Z each(const Z& v, F f) { Z r = v; for (unsigned i = 0; i < Tr<Z>::N; ++i) put(r, i, f(at(v, i))); return r; }

template<class V> void arith(Case& c) {
    V a = vFin<V>(c, 20, "a"), b = vFin<V>(c, 20, "b"); float s = finite(c, 20, "s"); auto A = g(a), B = g(b); b = each(b, [](float x) { return x == 0 ? 1.0f : x; }); B = g(b); float t = s == 0 ? 2.0f : s;
    cmp(c, "a+b", a + b, A + B, 0, 0); cmp(c, "a-b", a - b, A - B, 0, 0); cmp(c, "a*b", a * b, A * B, 0, 0); cmp(c, "a/b", a / b, A / B, 0, 3); cmp(c, "-a", -a, -A, 0, 0);
    cmp(c, "a+s", a + s, A + s, 0, 0); cmp(c, "a-s", a - s, A - s, 0, 0); cmp(c, "a*s", a * s, A * s, 0, 0); cmp(c, "a/s", a / t, A / t, 0, 3);
    cmp(c, "s+a", s + a, s + A, 0, 0); cmp(c, "s-a", s - a, s - A, 0, 0); cmp(c, "s*a", s * a, s * A, 0, 0); cmp(c, "s/b", s / b, s / B, 0, 3);
    V x = a; auto X = A; x += b; X += B; cmp(c, "+=", x, X, 0, 0); x = a; X = A; x -= s; X -= s; cmp(c, "-=", x, X, 0, 0); x = a; X = A; x *= b; X *= B; cmp(c, "*=", x, X, 0, 0); x = a; X = A; x /= b; X /= B; cmp(c, "/=", x, X, 0, 3); ++x; ++X; cmp(c, "++", x, X, 0, 3 * (1 + 1)); 
    eqInt(c, a == b, A == B, "=="); eqInt(c, a != b, A != B, "!=");
}
template<class V> void common(Case& c) {
    using BV = typename Tr<V>::BV;
    V a = vFin<V>(c, 20, "a"), b = vFin<V>(c, 20, "b"), t = vFin<V>(c, 2, "t"); auto A = g(a), B = g(b), T = g(t); float s = finite(c, 2, "s");
    cmp(c, "abs", zcm::abs(a), glm::abs(A), 0, 0); cmp(c, "ceil", zcm::ceil(a), glm::ceil(A), 0, 0); cmp(c, "floor", zcm::floor(a), glm::floor(A), 0, 0); cmp(c, "trunc", zcm::trunc(a), glm::trunc(A), 0, 0);
    cmp(c, "round", zcm::round(a), glm::round(A), 0, 0); cmp(c, "fract", zcm::fract(a), glm::fract(A), 1, 2); cmp(c, "sign", zcm::sign(a), glm::sign(A), 0, 0);
    if (mx(a) < 1e9) cmp(c, "roundEven", zcm::roundEven(a), glm::roundEven(A), 0, 0);
    cmp(c, "min", zcm::min(a, b), glm::min(A, B), 0, 0); cmp(c, "max", zcm::max(a, b), glm::max(A, B), 0, 0); V lo = zcm::min(a, b), hi = zcm::max(a, b); cmp(c, "clamp", zcm::clamp(t, lo, hi), glm::clamp(T, g(lo), g(hi)), 0, 0);
    cmp(c, "mix(s)", zcm::mix(a, b, s), glm::mix(A, B, s), (mx(a) + mx(b)) * (1 + std::fabs(double(s))), 4); cmp(c, "mix(v)", zcm::mix(a, b, t), glm::mix(A, B, T), (mx(a) + mx(b)) * (1 + mx(t)), 4);
    BV bv = vBool<BV>(c, "bv"); cmp(c, "mix(b)", zcm::mix(a, b, bv), glm::mix(A, B, g(bv)), 0, 0); cmp(c, "step", zcm::step(a, b), glm::step(A, B), 0, 0);
    V e = each(b, [](float x) { return x; }); for (unsigned i = 0; i < Tr<V>::N; ++i) if (!(at(e, i) > at(a, i))) put(e, i, at(a, i) + std::fabs(at(a, i)) * 0.5f + 1.0f); cmp(c, "smoothstep", zcm::smoothstep(a, e, t), glm::smoothstep(A, g(e), T), 1, 16);
    V y = each(b, [](float x) { return x == 0 ? 1.5f : x; }); bool small = true; for (unsigned i = 0; i < Tr<V>::N; ++i) small &= std::fabs(double(at(a, i))) < 1e4 * std::fabs(double(at(y, i)));
    if (small) { V r = zcm::mod(a, y); auto R = glm::mod(A, g(y)); for (unsigned i = 0; i < Tr<V>::N; ++i) { double d = std::fabs(double(at(r, i)) - double(R[int(i)])), m = std::fabs(double(at(y, i))), tol = 4 * EPS * (std::fabs(double(at(a, i))) + m); ++c.oracle; if (!(d <= tol || std::fabs(d - m) <= tol)) throw Fail{fmt("mod[%u]: zcm %.9g GLM %.9g", i, double(at(r, i)), double(R[int(i)]))}; } }
    V w = vAny<V>(c, "w"); auto Wv = g(w); cmpI(c, "isnan", zcm::isnan(w), glm::isnan(Wv)); cmpI(c, "isinf", zcm::isinf(w), glm::isinf(Wv));
    V u = c.coin() ? w : b; auto U = g(u); cmpI(c, "lessThan", zcm::lessThan(w, u), glm::lessThan(Wv, U)); cmpI(c, "lessThanEqual", zcm::lessThanEqual(w, u), glm::lessThanEqual(Wv, U)); cmpI(c, "greaterThan", zcm::greaterThan(w, u), glm::greaterThan(Wv, U)); cmpI(c, "greaterThanEqual", zcm::greaterThanEqual(w, u), glm::greaterThanEqual(Wv, U)); cmpI(c, "equal", zcm::equal(w, u), glm::equal(Wv, U)); cmpI(c, "notEqual", zcm::notEqual(w, u), glm::notEqual(Wv, U));
    eqInt(c, zcm::all(bv), glm::all(g(bv)), "all"); eqInt(c, zcm::any(bv), glm::any(g(bv)), "any");
}
template<class V> void exponential(Case& c) {
    V a = vFin<V>(c, 4, "a"), p = each(vFin<V>(c, 20, "p"), [](float x) { return x == 0 ? 1.0f : std::fabs(x); }); V q = each(p, [](float x) { return x < 1e-3f || x > 1e3f ? 1.25f : x; }); V s = each(a, [](float x) { return x > 8 ? 8.0f : x < -8 ? -8.0f : x; });
    cmp(c, "exp", zcm::exp(a), glm::exp(g(a)), 0, 4); cmp(c, "exp2", zcm::exp2(a), glm::exp2(g(a)), 0, 4); cmp(c, "log", zcm::log(p), glm::log(g(p)), 0, 4); cmp(c, "log2", zcm::log2(p), glm::log2(g(p)), 0, 4);
    cmp(c, "sqrt", zcm::sqrt(p), glm::sqrt(g(p)), 0, 1); cmp(c, "inversesqrt", zcm::inversesqrt(p), glm::inversesqrt(g(p)), 0, 6); cmp(c, "pow", zcm::pow(q, s), glm::pow(g(q), g(s)), 0, 6);
}
template<class V> void trig(Case& c) {
    V a = vFin<V>(c, 4, "a"), u = each(vFin<V>(c, 1, "u"), [](float x) { return x > 1 ? 1.0f : x < -1 ? -1.0f : x; }), h = each(a, [](float x) { return 1.0f + std::fabs(x); }), b = vFin<V>(c, 4, "b"); V o = each(u, [](float x) { return std::fabs(x) == 1 ? 0.5f : x; });
    cmp(c, "sin", zcm::sin(a), glm::sin(g(a)), 0, 4); cmp(c, "cos", zcm::cos(a), glm::cos(g(a)), 0, 4); cmp(c, "tan", zcm::tan(a), glm::tan(g(a)), 0, 6); cmp(c, "asin", zcm::asin(u), glm::asin(g(u)), 0, 4); cmp(c, "acos", zcm::acos(u), glm::acos(g(u)), 0, 4); cmp(c, "atan", zcm::atan(a), glm::atan(g(a)), 0, 4); cmp(c, "atan2", zcm::atan(a, b), glm::atan(g(a), g(b)), 0, 4);
    cmp(c, "sinh", zcm::sinh(u), glm::sinh(g(u)), 0, 6); cmp(c, "cosh", zcm::cosh(u), glm::cosh(g(u)), 0, 6); cmp(c, "tanh", zcm::tanh(u), glm::tanh(g(u)), 0, 6); cmp(c, "asinh", zcm::asinh(a), glm::asinh(g(a)), 0, 6); cmp(c, "acosh", zcm::acosh(h), glm::acosh(g(h)), 0, 6); cmp(c, "atanh", zcm::atanh(o), glm::atanh(g(o)), 0, 6);
    cmp(c, "degrees", zcm::degrees(a), glm::degrees(g(a)), 0, 4); cmp(c, "radians", zcm::radians(a), glm::radians(g(a)), 0, 4);
}
template<class V> void geometric(Case& c) {
    V a = vFin<V>(c, 6, "a"), b = vFin<V>(c, 6, "b"), n = unitV<V>(c, "n"), i = unitV<V>(c, "i"); auto A = g(a), B = g(b), N = g(n), I = g(i); double la = norm(dbl(a)), lb = norm(dbl(b));
    cmp(c, "dot", zcm::dot(a, b), glm::dot(A, B), dotd(absd(dbl(a)), absd(dbl(b))), 8); cmp(c, "length", zcm::length(a), glm::length(A), 0, 12); cmp(c, "distance", zcm::distance(a, b), glm::distance(A, B), 0, 16); cmp(c, "length2", zcm::length2(a), glm::length2(A), 0, 12); cmp(c, "distance2", zcm::distance2(a, b), glm::distance2(A, B), 0, 16);
    if (la > 1e-6) cmp(c, "normalize", zcm::normalize(a), glm::normalize(A), 0, 20);
    cmp(c, "reflect", zcm::reflect(a, n), glm::reflect(A, N), la, 16); double d = double(glm::dot(typename G<V>::D(N), typename G<V>::D(B))); if (std::fabs(d) > 1e-5 * lb) cmp(c, "faceforward", zcm::faceforward(a, b, n), glm::faceforward(A, B, N), 0, 0);
    float eta = c.pick({1.0f, 0.5f, 1.5f, 0.75f, 1.33f}); c.note("eta", "%g", double(eta)); double ni = glm::dot(typename G<V>::D(N), typename G<V>::D(I)), k = 1 - double(eta) * eta * (1 - ni * ni); if (std::fabs(k) > 1e-4) cmp(c, "refract", zcm::refract(i, n, eta), glm::refract(I, N, eta), 2, 32 + 16 / std::sqrt(std::fabs(k)));
    cmp(c, "compAdd", zcm::compAdd(a), glm::compAdd(A), 4 * mx(a), 4); cmp(c, "compMul", zcm::compMul(a), glm::compMul(A), 0, 8); cmp(c, "compMin", zcm::compMin(a), glm::compMin(A), 0, 0); cmp(c, "compMax", zcm::compMax(a), glm::compMax(A), 0, 0);
}
// the same calls on every float there is: NaN, infinities, denormals, inverted ranges
static void ul(Case& c, const char* what, float got, float want, int n, int i = -1) { ++c.oracle; if (ulps(got, want) > n) throw Fail{fmt("%s[%d]: zcm %.9g (%a), GLM %.9g (%a)", what, i, double(got), double(got), double(want), double(want))}; }
template<class Z> void cu(Case& c, const char* what, const Z& got, const typename G<Z>::F& want, int n) { Z w = z<Z>(want); for (unsigned i = 0; i < Tr<Z>::N; ++i) { float a = at(got, i), b = at(w, i); if (n == 0) { ++c.oracle; if (!sameVal(a, b)) throw Fail{fmt("%s[%u]: zcm %.9g, GLM %.9g", what, i, double(a), double(b))}; } else ul(c, what, a, b, n, int(i)); } }
template<class V> void special(Case& c) {
    V a = vAny<V>(c, "a"), b = vAny<V>(c, "b"), d = vAny<V>(c, "d"); if (c.coin()) { unsigned i = unsigned(c.below(Tr<V>::N)); put(b, i, at(a, i)); } float s = anyFloat(c, "s"), t = anyFloat(c, "t"); auto A = g(a), B = g(b), D = g(d);
    using BV = typename Tr<V>::BV; BV bv = vBool<BV>(c, "bv");
    cu(c, "abs", zcm::abs(a), glm::abs(A), 0); cu(c, "floor", zcm::floor(a), glm::floor(A), 0); cu(c, "ceil", zcm::ceil(a), glm::ceil(A), 0); cu(c, "trunc", zcm::trunc(a), glm::trunc(A), 0); cu(c, "round", zcm::round(a), glm::round(A), 0); cu(c, "fract", zcm::fract(a), glm::fract(A), 0); cu(c, "sign", zcm::sign(a), glm::sign(A), 0);
    cu(c, "min", zcm::min(a, b), glm::min(A, B), 0); cu(c, "max", zcm::max(a, b), glm::max(A, B), 0); cu(c, "min(v,s)", zcm::min(a, s), glm::min(A, s), 0); cu(c, "max(v,s)", zcm::max(a, s), glm::max(A, s), 0);
    cu(c, "clamp", zcm::clamp(a, b, d), glm::clamp(A, B, D), 0); cu(c, "clamp(s)", zcm::clamp(a, s, t), glm::clamp(A, s, t), 0); cu(c, "step", zcm::step(a, b), glm::step(A, B), 0); cu(c, "step(s)", zcm::step(s, b), glm::step(s, B), 0); cu(c, "mix(b)", zcm::mix(a, b, bv), glm::mix(A, B, g(bv)), 0);
    cu(c, "a+b", a + b, A + B, 0); cu(c, "a-b", a - b, A - B, 0); cu(c, "a*b", a * b, A * B, 0); cu(c, "a/b", a / b, A / B, 0); cu(c, "a+s", a + s, A + s, 0); cu(c, "a-s", a - s, A - s, 0); cu(c, "a*s", a * s, A * s, 0); cu(c, "s+a", s + a, s + A, 0); cu(c, "s-a", s - a, s - A, 0); cu(c, "s*a", s * a, s * A, 0); cu(c, "s/a", s / a, s / A, 0);
    cu(c, "sqrt", zcm::sqrt(a), glm::sqrt(A), 1); cu(c, "inversesqrt", zcm::inversesqrt(a), glm::inversesqrt(A), 4); cu(c, "exp", zcm::exp(a), glm::exp(A), 4); cu(c, "exp2", zcm::exp2(a), glm::exp2(A), 4); cu(c, "log", zcm::log(a), glm::log(A), 4); cu(c, "log2", zcm::log2(a), glm::log2(A), 4); cu(c, "pow", zcm::pow(a, b), glm::pow(A, B), 4);
    cu(c, "sin", zcm::sin(a), glm::sin(A), 4); cu(c, "cos", zcm::cos(a), glm::cos(A), 4); cu(c, "tan", zcm::tan(a), glm::tan(A), 4); cu(c, "asin", zcm::asin(a), glm::asin(A), 4); cu(c, "acos", zcm::acos(a), glm::acos(A), 4); cu(c, "atan", zcm::atan(a), glm::atan(A), 4); cu(c, "atan2", zcm::atan(a, b), glm::atan(A, B), 4);
    cu(c, "sinh", zcm::sinh(a), glm::sinh(A), 6); cu(c, "cosh", zcm::cosh(a), glm::cosh(A), 6); cu(c, "tanh", zcm::tanh(a), glm::tanh(A), 6); cu(c, "asinh", zcm::asinh(a), glm::asinh(A), 6); cu(c, "acosh", zcm::acosh(a), glm::acosh(A), 6); cu(c, "atanh", zcm::atanh(a), glm::atanh(A), 6); cu(c, "degrees", zcm::degrees(a), glm::degrees(A), 2); cu(c, "radians", zcm::radians(a), glm::radians(A), 2);
    bool num = true; for (unsigned i = 0; i < Tr<V>::N; ++i) num &= !std::isnan(at(a, i)); if (num) { ++c.oracle; float m[] = {zcm::compMin(a), glm::compMin(A), zcm::compMax(a), glm::compMax(A)}; if (!sameVal(m[0], m[1]) || !sameVal(m[2], m[3])) throw Fail{fmt("compMin/compMax: zcm %.9g %.9g, GLM %.9g %.9g", double(m[0]), double(m[2]), double(m[1]), double(m[3]))}; }
    eqInt(c, a == b, A == B, "=="); eqInt(c, a != b, A != B, "!="); eqInt(c, a == a, A == A, "a==a");
}
// lengths and directions of degenerate vectors: zero, vanishing, huge, infinite, NaN
template<class V> void degenerate(Case& c) {
    V a = c.chance(4) ? mk<V>([] { Arr<V> z; z.fill(0); return z; }()) : vAny<V>(c, "a"); unsigned neg = unsigned(c.below(1u << Tr<V>::N)); for (unsigned i = 0; i < Tr<V>::N; ++i) if (neg >> i & 1) put(a, i, -at(a, i)); c.payload(neg + 7); shown(c, "a", a);
    double dd = 0, m = 0; bool nan = false, inf = false; for (unsigned i = 0; i < Tr<V>::N; ++i) { double x = at(a, i); nan |= std::isnan(x); inf |= std::isinf(x); dd += x * x; m = std::max(m, x * x); }
    if (!(nan || inf || dd == 0 || m < 1e-46 || (dd > 1e-36 && dd < 3e38))) { ++c.oracle; c.interesting = false; return; }
    auto A = g(a); cu(c, "normalize", zcm::normalize(a), glm::normalize(A), 20); ul(c, "length", zcm::length(a), glm::length(A), 12); ul(c, "length2", zcm::length2(a), glm::length2(A), 12); ul(c, "dot", zcm::dot(a, a), glm::dot(A, A), 12);
}
LAW(degenerate2) { degenerate<vec2>(c); } LAW(degenerate3) { degenerate<vec3>(c); } LAW(degenerate4) { degenerate<vec4>(c); }
LAW_W(special2, 2) { special<vec2>(c); } LAW_W(special3, 2) { special<vec3>(c); } LAW_W(special4, 2) { special<vec4>(c); }
LAW_W(special1, 2) {
    float a = anyFloat(c, "a"), b = anyFloat(c, "b"), d = anyFloat(c, "d");
    ul(c, "abs", zcm::abs(a), glm::abs(a), 0); ul(c, "floor", zcm::floor(a), glm::floor(a), 0); ul(c, "ceil", zcm::ceil(a), glm::ceil(a), 0); ul(c, "trunc", zcm::trunc(a), glm::trunc(a), 0); ul(c, "round", zcm::round(a), glm::round(a), 0); ul(c, "fract", zcm::fract(a), glm::fract(a), 0); ul(c, "sign", zcm::sign(a), glm::sign(a), 0);
    ul(c, "min", zcm::min(a, b), glm::min(a, b), 0); ul(c, "max", zcm::max(a, b), glm::max(a, b), 0); ul(c, "clamp", zcm::clamp(a, b, d), glm::clamp(a, b, d), 0); ul(c, "step", zcm::step(a, b), glm::step(a, b), 0); eqInt(c, zcm::isnan(a), glm::isnan(a), "isnan"); eqInt(c, zcm::isinf(a), glm::isinf(a), "isinf");
    ul(c, "sqrt", zcm::sqrt(a), glm::sqrt(a), 1); ul(c, "inversesqrt", zcm::inversesqrt(a), glm::inversesqrt(a), 4); ul(c, "exp", zcm::exp(a), glm::exp(a), 4); ul(c, "exp2", zcm::exp2(a), glm::exp2(a), 4); ul(c, "log", zcm::log(a), glm::log(a), 4); ul(c, "log2", zcm::log2(a), glm::log2(a), 4); ul(c, "pow", zcm::pow(a, b), glm::pow(a, b), 4);
    ul(c, "sin", zcm::sin(a), glm::sin(a), 4); ul(c, "cos", zcm::cos(a), glm::cos(a), 4); ul(c, "tan", zcm::tan(a), glm::tan(a), 4); ul(c, "asin", zcm::asin(a), glm::asin(a), 4); ul(c, "acos", zcm::acos(a), glm::acos(a), 4); ul(c, "atan", zcm::atan(a), glm::atan(a), 4); ul(c, "atan2", zcm::atan(a, b), glm::atan(a, b), 4); ul(c, "sinh", zcm::sinh(a), glm::sinh(a), 6); ul(c, "cosh", zcm::cosh(a), glm::cosh(a), 6); ul(c, "tanh", zcm::tanh(a), glm::tanh(a), 6); ul(c, "degrees", zcm::degrees(a), glm::degrees(a), 2); ul(c, "radians", zcm::radians(a), glm::radians(a), 2);
    ul(c, "asinh", zcm::asinh(a), glm::asinh(a), 6); ul(c, "acosh", zcm::acosh(a), glm::acosh(a), 6); ul(c, "atanh", zcm::atanh(a), glm::atanh(a), 6);
}
LAW_W(cross, 2) { vec3 a = vFin<vec3>(c, 6, "a"), b = vFin<vec3>(c, 6, "b"); cmp(c, "cross", zcm::cross(a, b), glm::cross(g(a), g(b)), norm(dbl(a)) * norm(dbl(b)), 6); }
template<class V> void ints(Case& c) {
    auto sm = [&] { return int32_t(c.range(-40000, 40000)); }; V a = vecBy<V>(c, "a", sm), b = vecBy<V>(c, "b", sm), n = each(b, [](int32_t x) { return x ? x : 7; }), k = each(b, [](int32_t x) { return x & 15; }); auto A = g(a), B = g(b); int s = sm() | 1; c.payload(uint32_t(s) + uint32_t(at(a, 0)));
    cmpI(c, "a+b", a + b, A + B); cmpI(c, "a-b", a - b, A - B); cmpI(c, "a*b", a * b, A * B); cmpI(c, "a/b", a / n, A / g(n)); cmpI(c, "a%b", a % n, A % g(n)); cmpI(c, "-a", -a, -A); cmpI(c, "a&b", a & b, A & B); cmpI(c, "a|b", a | b, A | B); cmpI(c, "a^b", a ^ b, A ^ B); cmpI(c, "a>>k", a >> k, A >> g(k)); V p = each(a, [](int32_t x) { return x < 0 ? -x : x; }); cmpI(c, "a<<k", p << k, g(p) << g(k));
    cmpI(c, "a+s", a + s, A + s); cmpI(c, "a*s", a * s, A * s); cmpI(c, "a/s", a / s, A / s); cmpI(c, "a%s", a % s, A % s); cmpI(c, "s-a", s - a, s - A); cmpI(c, "abs", zcm::abs(a), glm::abs(A)); cmpI(c, "sign", zcm::sign(a), glm::sign(A)); cmpI(c, "min", zcm::min(a, b), glm::min(A, B)); cmpI(c, "max", zcm::max(a, b), glm::max(A, B)); V lo = zcm::min(a, b), hi = zcm::max(a, b); cmpI(c, "clamp", zcm::clamp(n, lo, hi), glm::clamp(g(n), g(lo), g(hi)));
    eqInt(c, zcm::compAdd(a), glm::compAdd(A), "compAdd"); eqInt(c, zcm::compMin(a), glm::compMin(A), "compMin"); eqInt(c, zcm::compMax(a), glm::compMax(A), "compMax"); eqInt(c, a == b, A == B, "==");
}
#define EACH(N, f) LAW_W(f##N, 3) { f<vec##N>(c); }
EACH(2, arith) EACH(3, arith) EACH(4, arith) EACH(2, common) EACH(3, common) EACH(4, common) EACH(2, exponential) EACH(3, exponential) EACH(4, exponential) EACH(2, trig) EACH(3, trig) EACH(4, trig) EACH(2, geometric) EACH(3, geometric) EACH(4, geometric)
LAW_W(int2, 2) { ints<ivec2>(c); } LAW_W(int3, 2) { ints<ivec3>(c); } LAW_W(int4, 2) { ints<ivec4>(c); }

template<int n> void mats(Case& c) {
    using M = typename MatOf<n>::M; using V = typename MatOf<n>::V; M a = matGen<n>(c, "A"), b = matGen<n>(c, "B"); V v = vFin<V>(c, 5, "v"); float s = finite(c, 5, "s"); auto A = g(a), B = g(b); auto VV = g(v); double ma = mx(a), mb = mx(b), mv = mx(v); float t = s == 0 ? 3.0f : s;
    cmp(c, "A+B", a + b, A + B, 0, 0); cmp(c, "A-B", a - b, A - B, 0, 0); cmp(c, "A*B", a * b, A * B, n * ma * mb, 8); cmp(c, "A*s", a * s, A * s, 0, 0); cmp(c, "s*A", s * a, s * A, 0, 0); cmp(c, "A/s", a / t, A / t, 0, 3); cmp(c, "-A", -a, -A, 0, 0); cmp(c, "A*v", a * v, A * VV, n * ma * mv, 8); cmp(c, "v*A", v * a, VV * A, n * ma * mv, 8);
    cmp(c, "transpose", zcm::transpose(a), glm::transpose(A), 0, 0); cmp(c, "matrixCompMult", zcm::matrixCompMult(a, b), glm::matrixCompMult(A, B), 0, 0); W = "determinant"; sc(c, zcm::determinant(a), glm::determinant(gd(a)), 30 * EPS * perm<n>(dbl(a))); eqInt(c, a == b, A == B, "==");
    M x = a; auto X = A; x += b; X += B; cmp(c, "A+=B", x, X, 0, 0); x = a; X = A; x *= b; X *= B; cmp(c, "A*=B", x, X, n * ma * mb, 8);
    Inv<n> I; M m = invertible<n>(c, I, "M"); auto D = glm::inverse(gd(m)); DM<n> w; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[i * n + j] = D[i][j]; DM<n> tol = I.tol; for (auto& e : tol) e *= 2;
    nearMat<n>(c, zcm::inverse(m), w, tol, "inverse"); if (n > 2) nearMat<n>(c, zcm::inverseTranspose(m), mtrans<n>(w), mtrans<n>(tol), "inverseTranspose");
    double mt = 0; for (double e : tol) mt = std::max(mt, e); double mi = 0; for (double e : w) mi = std::max(mi, std::fabs(e)); auto q = D * typename G<V>::D(VV); auto r = typename G<V>::D(VV) * D; V zq = m / v, zr = v / m; for (unsigned i = 0; i < unsigned(n); ++i) { W = "A/v"; sc(c, at(zq, i), q[int(i)], n * mv * (2 * mt + 8 * EPS * mi), int(i)); W = "v/A"; sc(c, at(zr, i), r[int(i)], n * mv * (2 * mt + 8 * EPS * mi), int(i)); }
}
LAW_W(mat2, 4) { mats<2>(c); } LAW_W(mat3, 4) { mats<3>(c); } LAW_W(mat4, 4) { mats<4>(c); }
LAW_W(transform, 6) {
    mat4 m = c.coin() ? mat4(1.0f) : matGen<4>(c, "M"); vec3 v = vFin<vec3>(c, 5, "v"); float a = finite(c, 3, "angle"); vec3 ax = unitV<vec3>(c, "axis"); double s = mx(m) * (1 + mx(v));
    cmp(c, "translate", zcm::translate(m, v), glm::translate(g(m), g(v)), 4 * s, 4); cmp(c, "scale", zcm::scale(m, v), glm::scale(g(m), g(v)), 0, 2); cmp(c, "rotate", zcm::rotate(m, a, ax), glm::rotate(g(m), a, g(ax)), 4 * mx(m), 24);
}
LAW_W(camera, 6) {
    vec3 e = vFin<vec3>(c, 4, "eye"), t = vFin<vec3>(c, 4, "center"), u = c.coin() ? vec3(0.0f, 1.0f, 0.0f) : unitV<vec3>(c, "up"); D3 f = minus(dbl(t), dbl(e)); double l = norm(f); c.require(l > 1e-3 * (1 + norm(dbl(e)))); double sn = norm(crossd(f, dbl(u))) / l; c.require(sn > 0.05);
    cmp(c, "lookAtLH", zcm::lookAtLH(e, t, u), glm::lookAtLH(g(e), g(t), g(u)), 1 + 2 * norm(dbl(e)), 60 / sn); cmp(c, "lookAtRH", zcm::lookAtRH(e, t, u), glm::lookAtRH(g(e), g(t), g(u)), 1 + 2 * norm(dbl(e)), 60 / sn);
    float L = finite(c, 5, "l"), R = finite(c, 5, "r"), B = finite(c, 5, "b"), T = finite(c, 5, "t"), N = finite(c, 5, "n"), F = finite(c, 5, "f"); c.require(L != R && B != T && N != F); double k = (std::fabs(L) + std::fabs(R)) / std::fabs(double(R) - L) + (std::fabs(B) + std::fabs(T)) / std::fabs(double(T) - B) + (std::fabs(N) + std::fabs(F)) / std::fabs(double(F) - N); c.require(k < 1e4);
    cmp(c, "ortho", zcm::ortho(L, R, B, T), glm::ortho(L, R, B, T), k, 8); cmp(c, "orthoLH_ZO", zcm::orthoLH_ZO(L, R, B, T, N, F), glm::orthoLH_ZO(L, R, B, T, N, F), k, 8); cmp(c, "orthoRH_ZO", zcm::orthoRH_ZO(L, R, B, T, N, F), glm::orthoRH_ZO(L, R, B, T, N, F), k, 8); cmp(c, "orthoLH_NO", zcm::orthoLH_NO(L, R, B, T, N, F), glm::orthoLH_NO(L, R, B, T, N, F), k, 8); cmp(c, "orthoRH_NO", zcm::orthoRH_NO(L, R, B, T, N, F), glm::orthoRH_NO(L, R, B, T, N, F), k, 8);
    float fov = 0.05f + float(c.below(3000)) / 1000.0f, as = 0.1f + float(c.below(4000)) / 1000.0f, n = 0.01f + std::fabs(N), h = n + 0.01f + std::fabs(F); c.note("fov", "%g", double(fov)); c.note("aspect", "%g", double(as)); double p = 0.1 + 2 * double(h) * double(n) / (double(h) - double(n)), q = 4 * (double(h) + n) / (double(h) - n);
    cmp(c, "perspectiveLH_ZO", zcm::perspectiveLH_ZO(fov, as, n, h), glm::perspectiveLH_ZO(fov, as, n, h), p, q); cmp(c, "perspectiveRH_ZO", zcm::perspectiveRH_ZO(fov, as, n, h), glm::perspectiveRH_ZO(fov, as, n, h), p, q); cmp(c, "perspectiveLH_NO", zcm::perspectiveLH_NO(fov, as, n, h), glm::perspectiveLH_NO(fov, as, n, h), p, q); cmp(c, "perspectiveRH_NO", zcm::perspectiveRH_NO(fov, as, n, h), glm::perspectiveRH_NO(fov, as, n, h), p, q);
}
LAW_W(quaternions, 8) {
    quat a = vFin<quat>(c, 5, "a"), b = vFin<quat>(c, 5, "b"); auto A = g(a), B = g(b); float s = finite(c, 5, "s"), t = s == 0 ? 2.0f : s; vec3 v = vFin<vec3>(c, 5, "v"); double na = norm(dbl(a)), nb = norm(dbl(b));
    cmp(c, "a+b", a + b, A + B, 0, 0); cmp(c, "a-b", a - b, A - B, 0, 0); cmp(c, "-a", -a, -A, 0, 0); cmp(c, "a*s", a * s, A * s, 0, 0); cmp(c, "s*a", s * a, s * A, 0, 0); cmp(c, "a/s", a / t, A / t, 0, 3); cmp(c, "a*b", a * b, A * B, na * nb, 8);
    cmp(c, "conjugate", zcm::conjugate(a), glm::conjugate(A), 0, 0); cmp(c, "dot", zcm::dot(a, b), glm::dot(A, B), na * nb, 8); cmp(c, "length", zcm::length(a), glm::length(A), 0, 12); if (na > 1e-6) { cmp(c, "normalize", zcm::normalize(a), glm::normalize(A), 0, 20); cmp(c, "inverse", zcm::inverse(a), glm::inverse(A), 0, 20); }
    eqInt(c, a == b, A == B, "=="); cmpI(c, "equal", zcm::equal(a, b), glm::equal(A, B)); cmpI(c, "isnan", zcm::isnan(a), glm::isnan(A));
    float w = c.below(33) / 32.0f; c.note("t", "%g", double(w)); cmp(c, "lerp", zcm::lerp(a, b, w), glm::lerp(A, B, w), mx(a) + mx(b), 4);
    quat p = unitQ(c, "p"), q = unitQ(c, "q"); auto P = g(p), Q = g(q); double d = dotd(dbl(p), dbl(q)); if (std::fabs(d) > 1e-4) cmp(c, "slerp", zcm::slerp(p, q, w), glm::slerp(P, Q, w), 1, 4000);
    cmp(c, "q*v", q * v, Q * g(v), norm(dbl(v)), 40); cmp(c, "v*q", v * q, g(v) * Q, norm(dbl(v)), 60); cmp(c, "mat3_cast", zcm::mat3_cast(q), glm::mat3_cast(Q), 1, 16); cmp(c, "mat4_cast", zcm::mat4_cast(q), glm::mat4_cast(Q), 1, 16);
    mat3 m = z<mat3>(glm::mat3_cast(Q)); mat4 m4 = z<mat4>(glm::mat4_cast(Q)); auto Z = glm::quat_cast(g(m)); quat y = zcm::quat_cast(m), y4 = zcm::quat_cast(m4); double sg = dotd(dbl(y), dbl(z<quat>(Z))) < 0 ? -1 : 1, sg4 = dotd(dbl(y4), dbl(z<quat>(Z))) < 0 ? -1 : 1; for (unsigned i = 0; i < 4; ++i) { W = "quat_cast(mat3)"; sc(c, at(y, i), sg * double(at(z<quat>(Z), i)), 2e-6, int(i)); W = "quat_cast(mat4)"; sc(c, at(y4, i), sg4 * double(at(z<quat>(Z), i)), 2e-6, int(i)); }
    float an = finite(c, 3, "angle"); vec3 ax = unitV<vec3>(c, "axis"); cmp(c, "angleAxis", zcm::angleAxis(an, ax), glm::angleAxis(an, g(ax)), 1, 8); cmp(c, "rotate", zcm::rotate(q, an, ax), glm::rotate(Q, an, g(ax)), 1, 24);
    double sq = norm(D3{{double(at(q, 0)), double(at(q, 1)), double(at(q, 2))}}); if (sq > 0.1) cmp(c, "axis", zcm::axis(q), glm::axis(Q), 1, 1000); if (sq > 1e-6 && at(q, 3) > -0.87f) cmp(c, "angle", zcm::angle(q), glm::angle(Q), at(q, 3) > 0.9f ? 0 : 1, 24);
    double sy = 2 * (double(at(q, 3)) * at(q, 1) - double(at(q, 0)) * at(q, 2)), cy = std::sqrt(std::max(0.0, 1 - sy * sy)); if (cy > 0.05) { double tol = 600 / cy; cmp(c, "yaw", zcm::yaw(q), glm::yaw(Q), 1, tol); float pi[] = {zcm::pitch(q), zcm::roll(q)}, gi[] = {glm::pitch(Q), glm::roll(Q)}; for (int i = 0; i < 2; ++i) { double e = std::fabs(std::remainder(double(pi[i]) - double(gi[i]), 6.283185307179586)); ++c.oracle; if (!(e <= tol * EPS)) throw Fail{fmt("%s: zcm %.9g GLM %.9g", i ? "roll" : "pitch", double(pi[i]), double(gi[i]))}; } }
    vec3 eu = vFin<vec3>(c, 2, "euler"); cmp(c, "quat(euler)", quat(eu), glm::quat(g(eu)), 1, 8);
    vec3 u1 = unitV<vec3>(c, "u1"), u2 = unitV<vec3>(c, "u2"); double du = dotd(dbl(u1), dbl(u2)); if (du > -0.99) cmp(c, "quat(u,v)", quat(u1, u2), glm::quat(g(u1), g(u2)), 1, 2000);
    vec3 up(0.0f, 1.0f, 0.0f); if (std::fabs(at(u1, 1)) < 0.95f) { quat l = zcm::quatLookAtLH(u1, up), r = zcm::quatLookAtRH(u1, up); auto gl = z<quat>(glm::quatLookAtLH(g(u1), g(up))), gr = z<quat>(glm::quatLookAtRH(g(u1), g(up))); double s1 = dotd(dbl(l), dbl(gl)) < 0 ? -1 : 1, s2 = dotd(dbl(r), dbl(gr)) < 0 ? -1 : 1; for (unsigned i = 0; i < 4; ++i) { W = "quatLookAtLH"; sc(c, at(l, i), s1 * double(at(gl, i)), 1e-5, int(i)); W = "quatLookAtRH"; sc(c, at(r, i), s2 * double(at(gr, i)), 1e-5, int(i)); } }
}
template<class V> void colour(Case& c) {
    V v = vecBy<V>(c, "v", [&] { float f = float(c.below(1u << 20)) / float(1 << 20); c.payload(bitsOf(f)); return f; }); float ga = 1.0f + float(c.below(1024)) / 512.0f; c.note("gamma", "%g", double(ga)); bool near_ = false; for (unsigned i = 0; i < 3; ++i) near_ |= std::fabs(at(v, i) - 0.0031308f) < 1e-5f || std::fabs(at(v, i) - 0.04045f) < 1e-5f; c.require(!near_);
    cmp(c, "convertLinearToSRGB", zcm::convertLinearToSRGB(v), glm::convertLinearToSRGB(g(v)), 1, 400); cmp(c, "convertLinearToSRGB(g)", zcm::convertLinearToSRGB(v, ga), glm::convertLinearToSRGB(g(v), ga), 1, 16); cmp(c, "convertSRGBToLinear", zcm::convertSRGBToLinear(v), glm::convertSRGBToLinear(g(v)), 1, 16); cmp(c, "convertSRGBToLinear(g)", zcm::convertSRGBToLinear(v, ga), glm::convertSRGBToLinear(g(v), ga), 1, 16);
}
LAW_W(colour3, 2) { colour<vec3>(c); } LAW_W(colour4, 2) { colour<vec4>(c); }
LAW_W(pointers, 2) {
    vec4 v = vAny<vec4>(c, "v"); mat4 m = matGen<4>(c, "M"); mat3 n = matGen<3>(c, "N"); auto A = g(v); auto M = g(m); auto N = g(n);
    for (int i = 0; i < 4; ++i) eqBits(c, zcm::value_ptr(v)[i], glm::value_ptr(A)[i], "value_ptr(vec4)", i); for (int i = 0; i < 16; ++i) eqBits(c, zcm::value_ptr(m)[i], glm::value_ptr(M)[i], "value_ptr(mat4)", i); for (int i = 0; i < 9; ++i) eqBits(c, zcm::value_ptr(n)[i], glm::value_ptr(N)[i], "value_ptr(mat3)", i);
    unsigned i = unsigned(c.below(4)), j = unsigned(c.below(4)); eqBits(c, m[i][j], M[int(i)][int(j)], "mat4[i][j]"); eqBits(c, v[i], A[int(i)], "vec4[i]"); cmp(c, "make_vec4", zcm::make_vec4(zcm::value_ptr(v)), glm::make_vec4(glm::value_ptr(A)), 0, 0); cmp(c, "make_mat4", zcm::make_mat4(zcm::value_ptr(m)), glm::make_mat4(glm::value_ptr(M)), 0, 0);
    cmp(c, "mat3(mat4)", mat3(m), glm::mat3(M), 0, 0); cmp(c, "mat4(mat3)", mat4(n), glm::mat4(N), 0, 0);
}
LAW(constants) {
    const double PI = 3.14159265358979323846, S2 = std::sqrt(2.0);
    struct K { const char* n; float z; float g; double w; };
    const K k[] = {{"pi", zcm::pi(), glm::pi<float>(), PI}, {"two_pi", zcm::two_pi(), glm::two_pi<float>(), 2 * PI}, {"root_pi", zcm::root_pi(), glm::root_pi<float>(), std::sqrt(PI)}, {"half_pi", zcm::half_pi(), glm::half_pi<float>(), PI / 2}, {"three_over_two_pi", zcm::three_over_two_pi(), glm::three_over_two_pi<float>(), 1.5 * PI}, {"quarter_pi", zcm::quarter_pi(), glm::quarter_pi<float>(), PI / 4}, {"one_over_pi", zcm::one_over_pi(), glm::one_over_pi<float>(), 1 / PI}, {"one_over_two_pi", zcm::one_over_two_pi(), glm::one_over_two_pi<float>(), 0.5 / PI}, {"two_over_pi", zcm::two_over_pi(), glm::two_over_pi<float>(), 2 / PI}, {"four_over_pi", zcm::four_over_pi(), glm::four_over_pi<float>(), 4 / PI}, {"two_over_root_pi", zcm::two_over_root_pi(), glm::two_over_root_pi<float>(), 2 / std::sqrt(PI)}, {"one_over_root_two", zcm::one_over_root_two(), glm::one_over_root_two<float>(), 1 / S2}, {"root_half_pi", zcm::root_half_pi(), glm::root_half_pi<float>(), std::sqrt(PI / 2)}, {"root_two_pi", zcm::root_two_pi(), glm::root_two_pi<float>(), std::sqrt(2 * PI)}, {"root_ln_four", zcm::root_ln_four(), glm::root_ln_four<float>(), std::sqrt(std::log(4.0))}, {"e", zcm::e(), glm::e<float>(), std::exp(1.0)}, {"euler", zcm::euler(), glm::euler<float>(), 0.57721566490153286}, {"root_two", zcm::root_two(), glm::root_two<float>(), S2}, {"root_three", zcm::root_three(), glm::root_three<float>(), std::sqrt(3.0)}, {"root_five", zcm::root_five(), glm::root_five<float>(), std::sqrt(5.0)}, {"ln_two", zcm::ln_two(), glm::ln_two<float>(), std::log(2.0)}, {"ln_ten", zcm::ln_ten(), glm::ln_ten<float>(), std::log(10.0)}, {"ln_ln_two", zcm::ln_ln_two(), glm::ln_ln_two<float>(), std::log(std::log(2.0))}, {"third", zcm::third(), glm::third<float>(), 1.0 / 3}, {"two_thirds", zcm::two_thirds(), glm::two_thirds<float>(), 2.0 / 3}, {"golden_ratio", zcm::golden_ratio(), glm::golden_ratio<float>(), (1 + std::sqrt(5.0)) / 2}, {"epsilon", zcm::epsilon(), glm::epsilon<float>(), 1.1920928955078125e-7}, {"zero", zcm::zero(), glm::zero<float>(), 0}, {"one", zcm::one(), glm::one<float>(), 1}};
    unsigned i = unsigned(c.below(sizeof k / sizeof *k)); c.payload(i); c.payload(i + 1); c.say(k[i].n); eqUlp(c, k[i].z, k[i].w, 1, k[i].n);
    if (strcmp(k[i].n, "ln_ln_two")) eqUlp(c, k[i].z, double(k[i].g), 1, k[i].n);
}

// Calls outside the usual domain (quaternions and normals that are not unit, any matrix, negative eta, t beyond [0,1]): what they
// return is still the same closed expression.  The oracle is GLM in double; the tolerance comes from moving the operands by 2^-19.
template<size_t NO, class F> struct Cond {
    DA<NO> d, tol; bool ok = true;
    template<size_t NI> Cond(const DA<NI>& in, F f, double rel = 1.9e-6) {
        d = f(in); DA<NO> sp{}; double m = 0; uint32_t h = 12345;
        for (int k = 0; k < 12 && ok; ++k) { DA<NI> p = in; for (auto& x : p) { h = h * 1664525u + 1013904223u; x *= 1 + rel * (double(h >> 8) / 8388608.0 - 1); } auto r = f(p); for (size_t i = 0; i < NO; ++i) { if (!std::isfinite(r[i])) ok = false; sp[i] = std::max(sp[i], std::fabs(r[i] - d[i])); } }
        for (double x : d) { if (!std::isfinite(x)) ok = false; m = std::max(m, std::fabs(x)); }
        for (size_t i = 0; i < NO; ++i) { tol[i] = 4 * sp[i] + 1e-36 + 16 * EPS * m; if (sp[i] > 0.01 * m) ok = false; }
    }
};
template<size_t NO, size_t NI, class F> void same(Case& c, const char* what, const std::array<float, NO>& got, const DA<NI>& in, F f, double extra = 0) { Cond<NO, F> k(in, f); if (!k.ok) { ++c.oracle; return; } W = what; for (size_t i = 0; i < NO; ++i) sc(c, got[i], k.d[i], k.tol[i] + extra, int(i)); }
template<class D, size_t N> D ld(const DA<N>& p, size_t o) { D v; for (int i = 0; i < int(sizeof(D) / sizeof(double)); ++i) (&v[0])[i] = p[o + size_t(i)]; return v; }
template<> glm::dmat3 ld<glm::dmat3, 9>(const DA<9>& p, size_t o) { glm::dmat3 m; memcpy(&m, p.data() + o, sizeof m); return m; }
template<class D> DA<sizeof(D) / sizeof(double)> out(const D& v) { DA<sizeof(D) / sizeof(double)> r; memcpy(r.data(), &v, sizeof v); return r; }
template<size_t A, size_t B> DA<A + B> cat(const DA<A>& a, const DA<B>& b) { DA<A + B> r; for (size_t i = 0; i < A; ++i) r[i] = a[i]; for (size_t i = 0; i < B; ++i) r[A + i] = b[i]; return r; }
static glm::dquat lq(const double* p) { glm::dquat q; q.x = p[0]; q.y = p[1]; q.z = p[2]; q.w = p[3]; return q; }
static DA<4> oq(const glm::dquat& q) { return DA<4>{{q.x, q.y, q.z, q.w}}; }
static double near1(double a, double w) { return a + 6.283185307179586477 * std::nearbyint((w - a) / 6.283185307179586477); }
LAW_W(looseQuat, 6) {
    quat q = vFin<quat>(c, int(c.pick({1, 3, 5, 12})), "q"); if (c.chance(3)) { quat u = unitQ(c, "u"); float k = c.pick({0.5f, 0.9f, 0.999f, 1.001f, 1.1f, 2.0f}); for (unsigned i = 0; i < 4; ++i) put(q, i, at(u, i) * k); c.say("k u = " + show(q)); }
    DA<4> Q = dbl(q); vec3 v = vFin<vec3>(c, 5, "v"); auto X = cat(Q, dbl(v));
    same(c, "mat3_cast", arr(zcm::mat3_cast(q)), Q, [](const DA<4>& p) { return out(glm::mat3_cast(lq(p.data()))); });
    same(c, "mat4_cast", arr(zcm::mat4_cast(q)), Q, [](const DA<4>& p) { return out(glm::mat4_cast(lq(p.data()))); });
    same(c, "q*v", arr(q * v), X, [](const DA<7>& p) { return out(lq(p.data()) * glm::dvec3(p[4], p[5], p[6])); });
    same(c, "v*q", arr(v * q), X, [](const DA<7>& p) { return out(glm::dvec3(p[4], p[5], p[6]) * lq(p.data())); });
    double w = Q[3]; if (std::fabs(w) < 0.999 || std::fabs(w) > 1.001) same(c, "axis", arr(zcm::axis(q)), Q, [](const DA<4>& p) { return out(glm::axis(lq(p.data()))); });
    if (std::fabs(w) < 0.87) same(c, "angle", std::array<float, 1>{{zcm::angle(q)}}, Q, [](const DA<4>& p) { return DA<1>{{glm::angle(lq(p.data()))}}; });
    double dp = glm::pitch(lq(Q.data())), dr = glm::roll(lq(Q.data())); double n2 = dotd(Q, Q);
    auto sing = [&](double y, double x) { return std::fabs(y) + std::fabs(x) < 1e-4 * n2 || std::fabs(y) + std::fabs(x) < 1e-5; };
    if (!sing(2 * (Q[1] * Q[2] + w * Q[0]), w * w - Q[0] * Q[0] - Q[1] * Q[1] + Q[2] * Q[2])) same(c, "pitch", std::array<float, 1>{{float(near1(double(zcm::pitch(q)), dp))}}, Q, [&](const DA<4>& p) { return DA<1>{{near1(glm::pitch(lq(p.data())), dp)}}; });
    if (!sing(2 * (Q[0] * Q[1] + w * Q[2]), w * w + Q[0] * Q[0] - Q[1] * Q[1] - Q[2] * Q[2])) same(c, "roll", std::array<float, 1>{{float(near1(double(zcm::roll(q)), dr))}}, Q, [&](const DA<4>& p) { return DA<1>{{near1(glm::roll(lq(p.data())), dr)}}; });
    double sy = std::fabs(2 * (Q[0] * Q[2] - w * Q[1])); if (sy < 0.99 || sy > 1.01) same(c, "yaw", std::array<float, 1>{{zcm::yaw(q)}}, Q, [](const DA<4>& p) { return DA<1>{{glm::yaw(lq(p.data()))}}; });
    vec3 e = zcm::eulerAngles(q); ++c.oracle; if (!sameVal(at(e, 0), zcm::pitch(q)) || !sameVal(at(e, 1), zcm::yaw(q)) || !sameVal(at(e, 2), zcm::roll(q))) throw Fail{"eulerAngles is not (pitch, yaw, roll): " + show(e)};
}
LAW_W(looseAxis, 3) {
    quat q = vFin<quat>(c, 4, "q"); vec3 x = vFin<vec3>(c, 5, "axis"); float a = finite(c, 4, "angle"); auto X = cat(dbl(x), DA<1>{{double(a)}}); c.require(norm(dbl(x)) > 1e-6); mat4 m = matGen<4>(c, "M");
    same(c, "angleAxis", arr(zcm::angleAxis(a, x)), X, [](const DA<4>& p) { return oq(glm::angleAxis(p[3], glm::dvec3(p[0], p[1], p[2]))); });
    // GLM's own rotate(quat) leaves an axis of almost unit length as it is
    double l = norm(dbl(x)); if (std::fabs(l - 1) > 0.002) same(c, "rotate(q)", arr(zcm::rotate(q, a, x)), cat(dbl(q), X), [](const DA<8>& p) { return oq(glm::rotate(lq(p.data()), p[7], glm::dvec3(p[4], p[5], p[6]))); });
    same(c, "rotate(M)", arr(zcm::rotate(m, a, x)), cat(dbl(m), X), [](const DA<20>& p) { glm::dmat4 M; memcpy(&M, p.data(), sizeof M); return out(glm::rotate(M, p[19], glm::dvec3(p[16], p[17], p[18]))); });
    vec3 u = vFin<vec3>(c, 5, "u"), v = vFin<vec3>(c, 5, "v"); double lu = norm(dbl(u)), lv = norm(dbl(v)); if (lu > 1e-6 && lv > 1e-6 && dotd(dbl(u), dbl(v)) > -0.99 * lu * lv) same(c, "quat(u,v)", arr(quat(u, v)), cat(dbl(u), dbl(v)), [](const DA<6>& p) { return oq(glm::dquat(glm::dvec3(p[0], p[1], p[2]), glm::dvec3(p[3], p[4], p[5]))); });
}
LAW_W(looseMatrix, 4) {      // quat_cast of any matrix: the branch of the largest diagonal combination, either branch on a tie
    mat3 m = matGen<3>(c, "M"); if (c.coin()) { unsigned k = unsigned(c.below(9)); put(m, k, finite(c, 4, "e")); } mat4 m4 = matGen<4>(c, "M4"); for (unsigned i = 0; i < 9; ++i) put(m4, i / 3 * 4 + i % 3, at(m, i));
    auto M = dbl(m); auto el = [&](int i, int j) { return M[size_t(i * 3 + j)]; }; double s0 = std::fabs(el(0, 0)) + std::fabs(el(1, 1)) + std::fabs(el(2, 2)) + 1, f[4] = {el(0, 0) + el(1, 1) + el(2, 2), el(0, 0) - el(1, 1) - el(2, 2), el(1, 1) - el(0, 0) - el(2, 2), el(2, 2) - el(0, 0) - el(1, 1)}, big = *std::max_element(f, f + 4), mm = mx(m);
    // with diagonals that are small multiples of 1/8 the comparisons are exact, and GLM's choice on a tie is the only one
    bool exact = true; for (int i = 0; i < 3; ++i) exact &= std::fabs(el(i, i)) < 1024 && el(i, i) * 8 == std::nearbyint(el(i, i) * 8); int first = int(std::max_element(f, f + 4) - f);
    quat r[2] = {zcm::quat_cast(m), zcm::quat_cast(m4)};
    for (int k = 0; k < 2; ++k) { bool hit = false; std::string want; ++c.oracle;
        for (int b = 0; b < 4; ++b) if (exact ? b == first : f[b] >= big - 16 * EPS * s0) { double v = std::sqrt(f[b] + 1) * 0.5, t = 0.25 / v; DA<4> w{};   // x y z w
            double a12 = (el(1, 2) - el(2, 1)) * t, a20 = (el(2, 0) - el(0, 2)) * t, a01 = (el(0, 1) - el(1, 0)) * t, s01 = (el(0, 1) + el(1, 0)) * t, s20 = (el(2, 0) + el(0, 2)) * t, s12 = (el(1, 2) + el(2, 1)) * t;
            if (b == 0) w = DA<4>{{a12, a20, a01, v}}; if (b == 1) w = DA<4>{{v, s01, s20, a12}}; if (b == 2) w = DA<4>{{s01, v, s12, a20}}; if (b == 3) w = DA<4>{{s20, s12, v, a01}};
            double cond = s0 / (f[b] + 1), tv = 16 * EPS * v * (1 + cond), tt = 32 * EPS * t * mm * (1 + cond) + 1e-36; bool ok = true; for (unsigned i = 0; i < 4; ++i) { bool d = int(i) == (b == 0 ? 3 : b - 1); ok &= std::fabs(double(at(r[k], i)) - w[i]) <= (d ? tv : tt); } hit |= ok; want += fmt(" (%.9g %.9g %.9g %.9g)", w[0], w[1], w[2], w[3]); }
        if (!hit) throw Fail{std::string(k ? "quat_cast(mat4): " : "quat_cast(mat3): ") + show(r[k]) + " is none of" + want}; }
}
template<class V> void looseOptics(Case& c) {
    constexpr size_t N = Tr<V>::N; using D = typename G<V>::D; V i = vFin<V>(c, 3, "I"), n = c.coin() ? vFin<V>(c, 2, "N") : unitV<V>(c, "N"); float e = c.coin() ? finite(c, 2, "eta") : recF(c, "eta", c.pick({-1.0f, -0.5f, -1.5f, 0.0f, 3.0f, -2.0f})); auto X = cat(dbl(i), dbl(n)); auto Y = cat(X, DA<1>{{double(e)}});
    same(c, "reflect", arr(zcm::reflect(i, n)), X, [](const DA<2 * N>& p) { return out(glm::reflect(ld<D>(p, 0), ld<D>(p, N))); });
    double d = dotd(dbl(i), dbl(n)), ad = dotd(absd(dbl(i)), absd(dbl(n))), ee = double(e) * e, k = 1 - ee * (1 - d * d), tk = 1 + ee * (1 + ad * ad);
    if (std::fabs(k) > 1e-3 * tk) same(c, "refract", arr(zcm::refract(i, n, e)), Y, [](const DA<2 * N + 1>& p) { return out(glm::refract(ld<D>(p, 0), ld<D>(p, N), p[2 * N])); }, 32 * EPS * ((std::fabs(double(e)) * ad + tk / std::sqrt(std::fabs(k))) * mx(n) + std::fabs(double(e)) * mx(i)));
}
LAW_W(looseOptics2, 2) { looseOptics<vec2>(c); } LAW_W(looseOptics3, 2) { looseOptics<vec3>(c); } LAW_W(looseOptics4, 2) { looseOptics<vec4>(c); }
LAW_W(looseSlerp, 2) {
    quat p = unitQ(c, "p"), q = unitQ(c, "q"); float t = c.coin() ? finite(c, 3, "t") : recF(c, "t", c.pick({-1.0f, 2.0f, 1.5f, -0.5f, 3.0f, -2.0f, 0.0f, 1.0f}));
    if (c.chance(3)) { float k = c.pick({0.25f, 0.5f, 0.9f}); for (unsigned i = 0; i < 4; ++i) put(q, i, at(q, i) * k); c.say("q = " + show(q)); }
    double d = dotd(dbl(p), dbl(q)); if (std::fabs(d) > 1e-4 && std::fabs(d) < 0.9999) same(c, "slerp", arr(zcm::slerp(p, q, t)), cat(cat(dbl(p), dbl(q)), DA<1>{{double(t)}}), [](const DA<9>& x) { return oq(glm::slerp(lq(x.data()), lq(x.data() + 4), x[8])); });
}
template<class V> void looseInts(Case& c) {
    auto any = [&] { return anyInt(c); }; V a = vecBy<V>(c, "a", any), lo = vecBy<V>(c, "lo", any), hi = vecBy<V>(c, "hi", any); if (c.coin()) { unsigned i = unsigned(c.below(Tr<V>::N)); put(a, i, at(c.coin() ? lo : hi, i)); } auto A = g(a);
    cmpI(c, "min", zcm::min(a, lo), glm::min(A, g(lo))); cmpI(c, "max", zcm::max(a, lo), glm::max(A, g(lo))); cmpI(c, "clamp", zcm::clamp(a, lo, hi), glm::clamp(A, g(lo), g(hi))); cmpI(c, "a&b", a & lo, A & g(lo)); cmpI(c, "a|b", a | lo, A | g(lo)); cmpI(c, "a^b", a ^ lo, A ^ g(lo)); eqInt(c, a == hi, A == g(hi), "=="); eqInt(c, a != hi, A != g(hi), "!=");
    eqInt(c, zcm::clamp(at(a, 0), at(lo, 0), at(hi, 0)), glm::clamp(at(a, 0), at(lo, 0), at(hi, 0)), "clamp(int)"); eqInt(c, zcm::min(at(a, 0), at(lo, 0)), glm::min(at(a, 0), at(lo, 0)), "min(int)"); eqInt(c, zcm::max(at(a, 0), at(lo, 0)), glm::max(at(a, 0), at(lo, 0)), "max(int)"); eqInt(c, zcm::compMin(a), glm::compMin(A), "compMin"); eqInt(c, zcm::compMax(a), glm::compMax(A), "compMax");
}
LAW_W(looseInts2, 1) { looseInts<ivec2>(c); } LAW_W(looseInts3, 1) { looseInts<ivec3>(c); } LAW_W(looseInts4, 1) { looseInts<ivec4>(c); }
LAW(tieSlerp) {      // perpendicular end points whose dot product is exactly 0: GLM takes the arc to y itself
    auto pickQ = [&](unsigned k, bool half) { static const float h[4][4] = {{1, 1, 1, 1}, {1, 1, -1, -1}, {1, -1, 1, -1}, {1, -1, -1, 1}}; Arr<quat> a{}; float s = c.coin() ? 1.0f : -1.0f; if (half) for (unsigned i = 0; i < 4; ++i) a[i] = 0.5f * s * h[k][i]; else a[k] = s; return mk<quat>(a); };
    bool half = c.coin(); unsigned i = unsigned(c.below(4)), j = (i + 1 + unsigned(c.below(3))) % 4; quat p = shown(c, "p", pickQ(i, half)), q = shown(c, "q", pickQ(j, half)); float t = c.below(1u << 16) / 65536.0f; c.note("t", "%.9g", double(t)); c.payload(bitsOf(t));
    cmp(c, "slerp", zcm::slerp(p, q, t), glm::slerp(g(p), g(q), t), 1, 8);
}
LAW(looseScalar) {
    float i = finite(c, 4, "I"), n = finite(c, 4, "N"), e = finite(c, 3, "eta"), r = finite(c, 4, "Nref"); double d = double(i) * n, ee = double(e) * e, k = 1 - ee * (1 - d * d), tk = 1 + ee * (1 + d * d);
    cmp(c, "reflect(float)", zcm::reflect(i, n), glm::reflect(i, n), std::fabs(i) + 2 * std::fabs(d * n), 8); if (d != 0) cmp(c, "faceforward(float)", zcm::faceforward(i, n, r), glm::faceforward(i, n, r), 0, 0);
    if (std::fabs(k) > 1e-3 * tk) cmp(c, "refract(float)", zcm::refract(i, n, e), float(k < 0 ? 0 : double(e) * i - (double(e) * d + std::sqrt(k)) * n), std::fabs(double(e) * i) + (std::fabs(e * d) + tk / std::sqrt(std::fabs(k))) * std::fabs(n), 32);
}
