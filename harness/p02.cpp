// P02: arithmetic, bitwise and shift operators on integer vectors are exactly componentwise.
#include "gen.hpp"
using namespace pbt;

static const char* ON[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};
// true if `a op b` is defined for int32_t
static bool defined(unsigned o, int64_t a, int64_t b) {
    auto fits = [](int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; };
    switch (o) { case 0: return fits(a + b); case 1: return fits(a - b); case 2: return fits(a * b);
        case 3: case 4: return b != 0 && !(a == INT32_MIN && b == -1);
        case 8: return b >= 0 && b < 32 && a >= 0 && fits(a << b); case 9: return b >= 0 && b < 32; }
    return true;
}
static int32_t op1(unsigned o, int32_t a, int32_t b) {
    switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return a % b;
        case 5: return a & b; case 6: return a | b; case 7: return a ^ b; case 8: return a << b; default: return a >> b; }
}
#define SW(X, Y) switch (o) { case 0: return X + Y; case 1: return X - Y; case 2: return X * Y; case 3: return X / Y; case 4: return X % Y; \
    case 5: return X & Y; case 6: return X | Y; case 7: return X ^ Y; case 8: return X << Y; default: return X >> Y; }
#define SC(X, Y) switch (o) { case 0: X += Y; break; case 1: X -= Y; break; case 2: X *= Y; break; case 3: X /= Y; break; case 4: X %= Y; break; \
    case 5: X &= Y; break; case 6: X |= Y; break; case 7: X ^= Y; break; case 8: X <<= Y; break; default: X >>= Y; }
template<class V> V vv(unsigned o, const V& a, const V& b) { SW(a, b) }
template<class V> V vs(unsigned o, const V& a, const int32_t& b) { SW(a, b) }
template<class V> V sv(unsigned o, const int32_t& a, const V& b) { SW(a, b) }
template<class V> void cv(unsigned o, V& a, const V& b) { SC(a, b) }
template<class V> void cs(unsigned o, V& a, const int32_t& b) { SC(a, b) }
template<class V> void eqArr(Case& c, const V& got, const Arr<V>& want, const char* what) { for (unsigned i = 0; i < want.size(); ++i) eqInt(c, at(got, i), want[i], what, int(i)); }

// an operand for which `a op b` is defined (half of the draws would otherwise be thrown away)
static int32_t lhsFor(Case& c, unsigned o) { int32_t a = anyInt(c, "a"); if (o == 8 && a < 0) a = a == INT32_MIN ? 5 : -a; return a; }
static int32_t rhsFor(Case& c, unsigned o, int32_t a) {
    int32_t b = anyInt(c, "b");
    if (o >= 8) b = int32_t(uint32_t(b) & 31);
    while (!defined(o, a, b)) { if (o == 8 && b > 0) --b; else if (b == 0) b = 1; else b = b / 2 + (b == -1 ? 2 : 0); }
    return b;
}
template<class V> void binary(Case& c) {
    const unsigned N = Tr<V>::N; unsigned o = unsigned(c.below(10)); c.note("op", "%s", ON[o]);
    Arr<V> a, b, w; for (unsigned i = 0; i < N; ++i) { a[i] = lhsFor(c, o); b[i] = rhsFor(c, o, a[i]); w[i] = op1(o, a[i], b[i]); }
    V va = mk<V>(a), vb = mk<V>(b);
    eqArr(c, vv(o, va, vb), w, "vec op vec");
    V t = va; cv(o, t, vb); eqArr(c, t, w, "vec op= vec");
    eqArr(c, va, a, "left operand unchanged"); eqArr(c, vb, b, "right operand unchanged");
}
template<class V> void scalar(Case& c) {
    const unsigned N = Tr<V>::N; unsigned o = unsigned(c.below(10)); c.note("op", "%s", ON[o]);
    Arr<V> a, w; a[0] = lhsFor(c, o); int32_t s = rhsFor(c, o, a[0]);
    for (unsigned i = 1; i < N; ++i) { a[i] = lhsFor(c, o); if (!defined(o, a[i], s)) a[i] = a[0]; }
    V v = mk<V>(a);
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, a[i], s);
    eqArr(c, vs(o, v, s), w, "vec op scalar");
    V t = v; cs(o, t, s); eqArr(c, t, w, "vec op= scalar");
    // scalar on the left
    Arr<V> b; int32_t l = lhsFor(c, o); for (unsigned i = 0; i < N; ++i) { b[i] = rhsFor(c, o, l); w[i] = op1(o, l, b[i]); }
    eqArr(c, sv(o, l, mk<V>(b)), w, "scalar op vec");
}
template<class V> void aliased(Case& c) {
    const unsigned N = Tr<V>::N; unsigned o = unsigned(c.below(10)); c.note("op", "%s", ON[o]);
    Arr<V> a, w; for (unsigned i = 0; i < N; ++i) { a[i] = lhsFor(c, o); if (o >= 8) a[i] &= 7; if (!defined(o, a[i], a[i])) a[i] = int32_t(i) + 2; }
    V t = mk<V>(a); for (unsigned i = 0; i < N; ++i) w[i] = op1(o, a[i], a[i]);
    eqArr(c, vv(o, t, t), w, "v op v"); cv(o, t, t); eqArr(c, t, w, "v op= v");
    unsigned k = unsigned(c.below(N)); bool ok = true;
    for (unsigned i = 0; i < N; ++i) { if (!defined(o, a[i], a[k])) ok = false; else w[i] = op1(o, a[i], a[k]); }
    if (ok) { t = mk<V>(a); cs(o, t, t[k]); eqArr(c, t, w, "v op= v[k]"); }
}
template<class V> void unary(Case& c) {
    const unsigned N = Tr<V>::N; V a = vInt<V>(c, "a");
    for (unsigned i = 0; i < N; ++i) { if (at(a, i) == INT32_MIN) put(a, i, INT32_MIN + 1); if (at(a, i) == INT32_MAX) put(a, i, INT32_MAX - 1); }
    Arr<V> w = arr(a), in = w, de = w, ab = w; Arr<V> ng = w;
    for (unsigned i = 0; i < N; ++i) { ng[i] = -w[i]; in[i] = w[i] + 1; de[i] = w[i] - 1; ab[i] = w[i] < 0 ? -w[i] : w[i]; }
    eqArr(c, +a, w, "unary +"); eqArr(c, -a, ng, "unary -");
    V t = a; V& r = ++t; eqArr(c, t, in, "++v"); CHECK((void*)&r == (void*)&t, "++v must return v itself");
    t = a; V u = t++; eqArr(c, t, in, "v++ effect"); eqArr(c, u, w, "v++ result");
    t = a; V& r2 = --t; eqArr(c, t, de, "--v"); CHECK((void*)&r2 == (void*)&t, "--v must return v itself");
    t = a; u = t--; eqArr(c, t, de, "v-- effect"); eqArr(c, u, w, "v-- result");
    typename Tr<V>::BV b = a; for (unsigned i = 0; i < N; ++i) CHECK(bool(at(b, i)) == (w[i] != 0), "conversion to bvec, component %u of %s", i, show(a).c_str());
}
template<class V> void equality(Case& c) {
    const unsigned N = Tr<V>::N; V a = vInt<V>(c, "a"), b = a;
    switch (c.below(5)) { case 0: break; case 1: b = vInt<V>(c, "b"); break; case 3: case 4: b = cousin(c, "b", a); break; case 2: put(b, unsigned(c.below(N)), anyInt(c, "bk")); }
    bool e = arr(a) == arr(b);
    CHECK((a == b) == e && (b == a) == e, "%s vs %s", show(a).c_str(), show(b).c_str());
    CHECK((a != b) == !e && (b != a) == !e, "%s vs %s", show(a).c_str(), show(b).c_str());
}
template<class V> void history(Case& c) {
    const unsigned N = Tr<V>::N; V r[3]; Arr<V> m[3];
    for (int i = 0; i < 3; ++i) { r[i] = vInt<V>(c, "r"); m[i] = arr(r[i]); }
    unsigned steps = 1 + unsigned(c.below(24));
    for (unsigned s = 0; s < steps; ++s) {
        unsigned d = unsigned(c.below(3)), x = unsigned(c.below(3)), o = unsigned(c.below(10)), kind = unsigned(c.below(6)), k = unsigned(c.below(N));
        if (c.verbose) c.say(fmt("[%u d%u x%u %s k%u]", kind, d, x, ON[o], k));
        Arr<V> w = m[d]; bool ok = true; auto L = [&](auto a, auto b) { for (unsigned i = 0; i < N; ++i) { if (!defined(o, a(i), b(i))) { ok = false; return; } w[i] = op1(o, a(i), b(i)); } };
        auto D = [&](unsigned i) { return m[d][i]; }; auto X = [&](unsigned i) { return m[x][i]; }; int32_t f = m[x][k]; auto F = [&](unsigned) { return f; };
        switch (kind) {
        case 0: L(D, X); if (ok) cv(o, r[d], r[x]); break;
        case 1: L(D, F); if (ok) cs(o, r[d], r[x][k]); break;
        case 2: L(D, X); if (ok) r[d] = vv(o, r[d], r[x]); break;
        case 3: L(F, D); if (ok) r[d] = sv(o, f, r[d]); break;
        case 4: { int32_t z = anyInt(c, "z"); w[k] = z; r[d][k] = z; break; }
        case 5: { int32_t z = int32_t(c.range(0, 40)); w.fill(z); r[d] = V(z); break; }
        }
        if (ok) m[d] = w;
        for (int i = 0; i < 3; ++i) for (unsigned j = 0; j < N; ++j) eqInt(c, at(r[i], j), m[i][j], "register after step", int(s));
    }
}
LAW_W(binary2, 3) { binary<ivec2>(c); }
LAW_W(binary3, 3) { binary<ivec3>(c); }
LAW_W(binary4, 3) { binary<ivec4>(c); }
LAW_W(scalar2, 2) { scalar<ivec2>(c); }
LAW_W(scalar3, 2) { scalar<ivec3>(c); }
LAW_W(scalar4, 2) { scalar<ivec4>(c); }
LAW(aliased2) { aliased<ivec2>(c); }
LAW(aliased3) { aliased<ivec3>(c); }
LAW(aliased4) { aliased<ivec4>(c); }
LAW(unary2) { unary<ivec2>(c); }
LAW(unary3) { unary<ivec3>(c); }
LAW(unary4) { unary<ivec4>(c); }
LAW(equality2) { equality<ivec2>(c); }
LAW(equality3) { equality<ivec3>(c); }
LAW(equality4) { equality<ivec4>(c); }
LAW(history2) { history<ivec2>(c); }
LAW(history3) { history<ivec3>(c); }
LAW(history4) { history<ivec4>(c); }
