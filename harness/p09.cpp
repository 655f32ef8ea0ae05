// P09: every vector (and quaternion) overload of a scalar function is that scalar function applied per component.
#include "gen.hpp"
using namespace pbt;
template<class V> V signsOf(Case& c, const char* n, float m) { Arr<V> a; for (auto& x : a) { bool k = c.coin(); x = k ? -m : m; c.payload(bitsOf(x) + unsigned(&x - a.data())); } return shown(c, n, mk<V>(a)); }
template<class V> V args(Case& c, const char* n, int dom) {
    if (dom != 1 && c.chance(16)) return signsOf<V>(c, n, 0.0f);                                                                     // zeros of both signs
    if (dom != 1 && c.chance(16)) return signsOf<V>(c, n, std::fabs(dom == 0 ? anyFloat(c) : dom == 2 ? 0.5f : finite(c, 12)));      // one magnitude, both signs
    switch (dom) {
    case 1: { int e = c.pick({12, 12, 100}); return vecBy<V>(c, n, [&] { return std::fabs(finite(c, e)); }); }                                           // positive
    case 2: return vecBy<V>(c, n, [&] { return recF(c, "u", float(int64_t(c.below(2097153)) - 1048576) / 1048576.0f); });   // [-1,1]
    case 3: return vFin<V>(c, c.pick({3, 3, 12, 60}), n);
    default: return vAny<V>(c, n);
    }
}
template<class V, class F> void lift1(Case& c, const char* n, int dom, F f) {
    V a = args<V>(c, "a", c.chance(4) ? 0 : dom), r = f(a);
    for (unsigned i = 0; i < Tr<V>::N; ++i) eqVal(c, at(r, i), f(at(a, i)), n, int(i));
}
template<class V, class F> void lift2(Case& c, const char* n, int dom, F f) {
    V a = args<V>(c, "a", c.chance(4) ? 0 : dom), b = args<V>(c, "b", c.chance(5) ? 0 : dom), r = f(a, b);
    for (unsigned i = 0; i < Tr<V>::N; ++i) eqVal(c, at(r, i), f(at(a, i), at(b, i)), n, int(i));
}
template<class V, class F> void lift3(Case& c, const char* n, int dom, F f) {
    V a = args<V>(c, "a", c.chance(4) ? 0 : dom), b = args<V>(c, "b", c.chance(5) ? 0 : dom), d = args<V>(c, "c", c.chance(5) ? 0 : dom), r = f(a, b, d);
    for (unsigned i = 0; i < Tr<V>::N; ++i) eqVal(c, at(r, i), f(at(a, i), at(b, i), at(d, i)), n, int(i));
}
// odd functions: the sign of a zero is that of the scalar overload, too
template<class V, class F> void odd1(Case& c, const char* n, int dom, F f) {
    V a = args<V>(c, "a", c.chance(4) ? 0 : dom), r = f(a);
    for (unsigned i = 0; i < Tr<V>::N; ++i) { float want = f(at(a, i)); eqVal(c, at(r, i), want, n, int(i)); if (want == 0 && at(a, i) == 0) eqBits(c, at(r, i), want, n, int(i)); }
}
#define O(fn, dom) case __LINE__: odd1<V>(c, #fn, dom, [](auto x) { return zcm::fn(x); }); break;
#define U(fn, dom) case __LINE__: lift1<V>(c, #fn, dom, [](auto x) { return zcm::fn(x); }); break;
#define B(fn, dom) case __LINE__: lift2<V>(c, #fn, dom, [](auto x, auto y) { return zcm::fn(x, y); }); break;
#define T(fn, dom) case __LINE__: lift3<V>(c, #fn, dom, [](auto x, auto y, auto z) { return zcm::fn(x, y, z); }); break;
enum { U0 = __LINE__ + 3 };
template<class V> void unary(Case& c) {
    switch (U0 + int(c.below(28))) {
    U(abs, 0)
    O(ceil, 0)
    O(floor, 0)
    U(fract, 0)
    O(round, 0)
    O(roundEven, 0)
    U(sign, 3)
    U(signNotZero, 3)
    O(trunc, 0)
    U(exp, 3)
    U(exp2, 3)
    U(log, 1)
    U(log2, 1)
    O(sqrt, 1)
    U(inversesqrt, 1)
    O(cbrt, 0)
    U(cos, 3)
    O(sin, 3)
    O(tan, 3)
    U(acos, 2)
    O(asin, 2)
    O(atan, 0)
    U(cosh, 3)
    O(sinh, 3)
    O(tanh, 3)
    U(acosh, 1)
    O(asinh, 0)
    O(atanh, 2)
    default: c.discard(); }
}
enum { B0 = __LINE__ + 3 };
template<class V> void binary(Case& c) {
    switch (B0 + int(c.below(8))) {
    B(min, 0)
    B(max, 0)
    B(mod, 3)
    B(step, 3)
    B(pow, 1)
    B(atan, 0)
    O(degrees, 0)
    O(radians, 0)
    default: c.discard(); }
}
enum { T0 = __LINE__ + 3 };
template<class V> void ternary(Case& c) {
    switch (T0 + int(c.below(4))) {
    T(clamp, 3)
    T(fma, 0)
    T(smoothstep, 3)
    T(mix, 3)
    default: c.discard(); }
}
template<class V> void mixed(Case& c) {     // overloads that mix vectors with scalars or booleans
    V a = args<V>(c, "a", c.chance(4) ? 0 : 3), b = args<V>(c, "b", c.chance(4) ? 0 : 3); float s = c.chance(4) ? anyFloat(c, "s") : finite(c, c.pick({3, 30}), "s");
    typename Tr<V>::BV k = vBool<typename Tr<V>::BV>(c, "k");
    V m = zcm::mod(a, s), t = zcm::mix(a, b, s), u = zcm::mix(a, b, k);
    for (unsigned i = 0; i < Tr<V>::N; ++i) { eqVal(c, at(m, i), zcm::mod(at(a, i), s), "mod(v,s)", int(i)); eqVal(c, at(t, i), zcm::mix(at(a, i), at(b, i), s), "mix(v,v,s)", int(i));
        eqVal(c, at(u, i), at(k, i) ? at(b, i) : at(a, i), "mix(v,v,bool)", int(i)); }
}
template<class V> void ints(Case& c) {
    V a = vInt<V>(c, "a"), b = vInt<V>(c, "b"), d = vInt<V>(c, "c"); const unsigned N = Tr<V>::N;
    V mn = zcm::min(a, b), mx = zcm::max(a, b), sg = zcm::sign(a), sz = zcm::signNotZero(a);
    for (unsigned i = 0; i < N; ++i) { eqInt(c, at(mn, i), std::min(at(a, i), at(b, i)), "min", int(i)); eqInt(c, at(mx, i), std::max(at(a, i), at(b, i)), "max", int(i));
        eqInt(c, at(sg, i), (at(a, i) > 0) - (at(a, i) < 0), "sign", int(i)); eqInt(c, at(sz, i), at(a, i) < 0 ? -1 : 1, "signNotZero", int(i)); }
    V lo = b, hi = d; for (unsigned i = 0; i < N; ++i) if (at(lo, i) > at(hi, i)) { int t = at(lo, i); put(lo, i, at(hi, i)); put(hi, i, t); }
    V cl = zcm::clamp(a, lo, hi);
    for (unsigned i = 0; i < N; ++i) eqInt(c, at(cl, i), std::min(std::max(at(a, i), at(lo, i)), at(hi, i)), "clamp", int(i));
    for (unsigned i = 0; i < N; ++i) if (at(a, i) == INT32_MIN) put(a, i, INT32_MAX);
    V ab = zcm::abs(a); for (unsigned i = 0; i < N; ++i) eqInt(c, at(ab, i), at(a, i) < 0 ? -at(a, i) : at(a, i), "abs", int(i));
}
enum { Q0 = __LINE__ + 4 };
LAW_W(quats, 3) {
    using V = quat;
    switch (Q0 + int(c.below(8))) {
    U(exp, 3)
    U(exp2, 3)
    U(log, 1)
    U(log2, 1)
    O(sqrt, 1)
    U(inversesqrt, 1)
    O(cbrt, 0)
    case Q0 + 7: { quat q = args<quat>(c, "q", 1), r; float y = c.chance(4) ? anyFloat(c, "y") : finite(c, 3, "y"); r = zcm::pow(q, y); for (unsigned i = 0; i < 4; ++i) eqVal(c, at(r, i), zcm::pow(at(q, i), y), "pow(quat,y)", int(i)); break; }
    default: c.discard(); }
}
#define ALL(V) LAW_W(unary_##V, 6) { unary<V>(c); } LAW_W(binary_##V, 3) { binary<V>(c); } LAW_W(ternary_##V, 3) { ternary<V>(c); } LAW_W(mixed_##V, 2) { mixed<V>(c); }
ALL(vec2) ALL(vec3) ALL(vec4)
LAW(int2) { ints<ivec2>(c); } LAW(int3) { ints<ivec3>(c); } LAW(int4) { ints<ivec4>(c); }
// every float, in every position of one of the vector types
template<class V> void lanes(Case& c, const V& r, float w, const char* n) { for (unsigned i = 0; i < Tr<V>::N; ++i) eqVal(c, at(r, i), w, n, int(i)); }
#define L(fn) lanes(c, zcm::fn(v), zcm::fn(x), #fn);
template<class V> void cheap(Case& c, float x) { Arr<V> a; a.fill(x); V v = mk<V>(a); L(abs) L(ceil) L(floor) L(fract) L(round) L(roundEven) L(trunc) L(degrees) L(radians) if (!std::isnan(x)) { L(sign) L(signNotZero) } }
template<class V> void powers(Case& c, float x) { Arr<V> a; a.fill(x); V v = mk<V>(a); L(exp) L(exp2) L(log) L(log2) L(sqrt) L(inversesqrt) L(cbrt) }
template<class V> void angles(Case& c, float x) { Arr<V> a; a.fill(x); V v = mk<V>(a); L(sin) L(cos) L(tan) L(asin) L(acos) L(atan) }
template<class V> void hyper(Case& c, float x) { Arr<V> a; a.fill(x); V v = mk<V>(a); L(sinh) L(cosh) L(tanh) L(asinh) L(acosh) L(atanh) }
#define SWEPT(law, fn) LAW_SWEEP(law) { float x = everyFloat(c); switch (bitsOf(x) * 2654435761u >> 16 & 3) { case 0: fn<vec2>(c, x); break; case 1: fn<vec3>(c, x); break; default: fn<vec4>(c, x); } }
SWEPT(everyCheap, cheap) SWEPT(everyPower, powers) SWEPT(everyAngle, angles) SWEPT(everyHyperbolic, hyper)
