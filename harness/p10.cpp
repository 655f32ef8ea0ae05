// P10: relational functions equal the C++ comparison of each component, NaN included; all / any fold them.
#include "gen.hpp"
using namespace pbt;
template<class V, class R, class P> void rel(Case& c, const V& a, const V& b, const R& got, P p, const char* what) {
    for (unsigned i = 0; i < Tr<V>::N; ++i) eqInt(c, at(got, i), p(at(a, i), at(b, i)), what, int(i));
}
// pairs that agree in some components and differ by little, by sign or not at all in others
template<class V> void pairOf(Case& c, V& a, V& b) {
    a = vAny<V>(c, "a"); b = a; bool vb = c.verbose; c.verbose = false;
    for (unsigned i = 0; i < Tr<V>::N; ++i) switch (c.below(6)) {
        case 0: put(b, i, anyFloat(c)); break; case 1: put(b, i, std::nextafterf(at(a, i), INFINITY)); break; case 2: put(b, i, std::nextafterf(at(a, i), -INFINITY)); break;
        case 3: put(b, i, -at(a, i)); break; case 4: put(b, i, c.coin() ? NAN : at(a, i)); break; default: break; }
    c.verbose = vb; shown(c, "b", b);
}
template<class V> void order(Case& c) {
    V a, b; pairOf(c, a, b); if (c.coin()) std::swap(a, b);
    rel(c, a, b, zcm::lessThan(a, b), [](float x, float y) { return x < y; }, "lessThan");
    rel(c, a, b, zcm::lessThanEqual(a, b), [](float x, float y) { return x <= y; }, "lessThanEqual");
    rel(c, a, b, zcm::greaterThan(a, b), [](float x, float y) { return x > y; }, "greaterThan");
    rel(c, a, b, zcm::greaterThanEqual(a, b), [](float x, float y) { return x >= y; }, "greaterThanEqual");
}
template<class V> void eq(Case& c) {
    V a, b; pairOf(c, a, b);
    auto e = zcm::equal(a, b); auto n = zcm::notEqual(a, b);
    rel(c, a, b, e, [](float x, float y) { return x == y; }, "equal"); rel(c, a, b, n, [](float x, float y) { return x != y; }, "notEqual");
    using B = typename Tr<V>::BV; bool all = true, any = false; for (unsigned i = 0; i < unsigned(Tr<B>::N); ++i) { all = all && at(e, i); any = any || at(e, i); }
    CHECK(zcm::all(e) == all, "all(equal)"); CHECK(zcm::any(e) == any, "any(equal)"); CHECK(zcm::any(n) == !all, "any(notEqual)");
}
template<class B> void beq(Case& c) {
    B a = vBool<B>(c, "a"), b = vBool<B>(c, "b"); auto e = zcm::equal(a, b), n = zcm::notEqual(a, b);
    bool all = true, any = false;
    for (unsigned i = 0; i < Tr<B>::N; ++i) { eqInt(c, at(e, i), at(a, i) == at(b, i), "equal", int(i)); eqInt(c, at(n, i), at(a, i) != at(b, i), "notEqual", int(i)); all = all && at(a, i); any = any || at(a, i); }
    CHECK(zcm::all(a) == all, "all"); CHECK(zcm::any(a) == any, "any");
}
template<class V> void cls(Case& c) {
    V a = vAny<V>(c, "a"); auto n = zcm::isnan(a); auto f = zcm::isinf(a);
    for (unsigned i = 0; i < Tr<V>::N; ++i) { uint32_t u = bitsOf(at(a, i)) & 0x7fffffffu; eqInt(c, at(n, i), u > 0x7f800000u, "isnan", int(i)); eqInt(c, at(f, i), u == 0x7f800000u, "isinf", int(i)); }
}
LAW_W(order2, 2) { order<vec2>(c); } LAW_W(order3, 2) { order<vec3>(c); } LAW_W(order4, 2) { order<vec4>(c); }
LAW_W(eq2, 2) { eq<vec2>(c); } LAW_W(eq3, 2) { eq<vec3>(c); } LAW_W(eq4, 2) { eq<vec4>(c); } LAW_W(eqQuat, 2) { eq<quat>(c); }
LAW(bool2) { beq<bvec2>(c); } LAW(bool3) { beq<bvec3>(c); } LAW(bool4) { beq<bvec4>(c); }
LAW(class2) { cls<vec2>(c); } LAW(class3) { cls<vec3>(c); } LAW(class4) { cls<vec4>(c); } LAW(classQuat) { cls<quat>(c); }
