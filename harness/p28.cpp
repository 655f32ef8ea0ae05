// P28: compAdd, compMul, compMin and compMax reduce all components of a vector.
#include "gen.hpp"
using namespace pbt;
template<class V> void floats(Case& c) {
    V v = vScaled<V>(c, 20, "v"); const unsigned N = Tr<V>::N; double s = 0, as = 0, p = 1;
    for (unsigned i = 0; i < N; ++i) { double x = double(at(v, i)); s += x; as += std::fabs(x); p *= x; }
    near(c, zcm::compAdd(v), s, N * EPS * as, "compAdd"); near(c, zcm::compMul(v), p, 4 * EPS * std::fabs(p) + 1e-36, "compMul");
}
// sums and products that are infinite or not a number whatever the order of the operations
template<class V> void special(Case& c) {
    V v = vAny<V>(c, "v"); const unsigned N = Tr<V>::N; for (unsigned i = 0; i < N; ++i) if (c.chance(3)) put(v, i, c.pick({INFINITY, -INFINITY, NAN, 0.0f, -0.0f, 1.0f, 3.0f, -2.0f})); shown(c, "v", v);
    bool nan = false, up = false, down = false, zero = false, neg = false, tame = true;
    for (unsigned i = 0; i < N; ++i) { float x = at(v, i); nan |= std::isnan(x); up |= x == INFINITY; down |= x == -INFINITY; zero |= x == 0; neg ^= std::signbit(x); if (std::isfinite(x) && x != 0) tame = tame && std::fabs(x) > 1e-9f && std::fabs(x) < 1e9f; }
    float s = zcm::compAdd(v), p = zcm::compMul(v); c.require(nan || ((up || down) && tame));
    if (nan || (up && down)) CHECK(std::isnan(s), "compAdd(%s) is %g", show(v).c_str(), double(s)); else CHECK(s == (up ? INFINITY : -INFINITY), "compAdd(%s) is %g", show(v).c_str(), double(s));
    if (nan || (zero && (up || down))) CHECK(std::isnan(p), "compMul(%s) is %g", show(v).c_str(), double(p)); else CHECK(p == (neg ? -INFINITY : INFINITY), "compMul(%s) is %g", show(v).c_str(), double(p));
}
template<class V> void extremes(Case& c) {
    V v = vAny<V>(c, "v"); const unsigned N = Tr<V>::N; bool nan = false; float lo = at(v, 0), hi = lo;
    for (unsigned i = 0; i < N; ++i) { float x = at(v, i); nan |= std::isnan(x); lo = x < lo ? x : lo; hi = x > hi ? x : hi; }
    c.require(!nan); eqVal(c, zcm::compMin(v), lo, "compMin"); eqVal(c, zcm::compMax(v), hi, "compMax");
    unsigned i = unsigned(c.below(N)), j = unsigned(c.below(N)); V w = v; put(w, i, at(v, j)); put(w, j, at(v, i));
    eqVal(c, zcm::compMin(w), lo, "compMin of the permuted vector"); eqVal(c, zcm::compMax(w), hi, "compMax of the permuted vector");
}
template<class V> void ints(Case& c) {
    V v = vInt<V>(c, "v"); const unsigned N = Tr<V>::N; int64_t s = 0, as = 0; int32_t lo = at(v, 0), hi = lo; for (unsigned i = 0; i < N; ++i) { int64_t x = at(v, i); s += x; as += x < 0 ? -x : x; lo = std::min(lo, at(v, i)); hi = std::max(hi, at(v, i)); }
    eqInt(c, zcm::compMin(v), lo, "compMin"); eqInt(c, zcm::compMax(v), hi, "compMax");
    // sums: shrink the vector until every partial sum, in whatever order, is representable
    V a = v; auto fits = [&] { int64_t up = 0, down = 0; for (unsigned i = 0; i < N; ++i) { int64_t x = at(a, i); (x > 0 ? up : down) += x; } return up <= INT32_MAX && down >= INT32_MIN; };
    while (!fits()) for (unsigned i = 0; i < N; ++i) put(a, i, at(a, i) / 2 + (at(a, i) & 1 ? int(i & 1) : 0)); int64_t sa = 0; for (unsigned i = 0; i < N; ++i) sa += at(a, i);
    shown(c, "a", a); eqInt(c, zcm::compAdd(a), sa, "compAdd"); (void)s; (void)as;
    // products: the non-zero components multiply to something representable
    { V m = v; int64_t lim = INT32_MAX, pr = 1; unsigned k0 = unsigned(c.below(N)); for (unsigned i = 0; i < N; ++i) { unsigned k = (k0 + i) % N; int64_t x = at(m, k); int64_t r = x < 0 ? -x : x; if (r > lim) r = lim ? r % lim + (r % lim == 0) : 0; if (r > 1) lim /= r; put(m, k, int32_t(x < 0 ? -r : r)); pr *= x < 0 ? -r : r; } shown(c, "m", m); eqInt(c, zcm::compMul(m), pr, "compMul"); }
    V w = v; int64_t p = 1; int32_t lim = N == 2 ? 46340 : N == 3 ? 1290 : 215; for (unsigned i = 0; i < N; ++i) { put(w, i, at(v, i) % (lim + 1)); p *= at(w, i); } shown(c, "w", w);
    eqInt(c, zcm::compMul(w), p, "compMul"); int64_t q = 0; for (unsigned i = 0; i < N; ++i) q += at(w, i); eqInt(c, zcm::compAdd(w), q, "compAdd");
}
LAW(float2) { floats<vec2>(c); } LAW(float3) { floats<vec3>(c); } LAW(float4) { floats<vec4>(c); }
LAW(special2) { special<vec2>(c); } LAW(special3) { special<vec3>(c); } LAW(special4) { special<vec4>(c); }
LAW(extremes2) { extremes<vec2>(c); } LAW(extremes3) { extremes<vec3>(c); } LAW(extremes4) { extremes<vec4>(c); }
LAW(int2) { ints<ivec2>(c); } LAW(int3) { ints<ivec3>(c); } LAW(int4) { ints<ivec4>(c); }
