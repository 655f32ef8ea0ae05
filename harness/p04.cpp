// P04: boolean vectors follow boolean algebra in every component, and every stored bool is 0 or 1.
#include "gen.hpp"
using namespace pbt;

template<class V> unsigned char raw(const V& v, unsigned i) { unsigned char b; memcpy(&b, (const char*)(const void*)&v + i, 1); return b; }
template<class V> void eqB(Case& c, const V& got, const Arr<V>& want, const char* what) {
    for (unsigned i = 0; i < Tr<V>::N; ++i) { ++c.oracle;
        if (raw(got, i) != (want[i] ? 1 : 0)) throw Fail{fmt("%s[%u]: stored byte %u, expected %d", what, i, raw(got, i), int(want[i]))}; }
}
static bool op1(unsigned o, bool a, bool b) { return o == 0 ? (a && b) : o == 1 ? (a || b) : (a != b); }
static const char* ON[] = {"and", "or", "xor"};
template<class V> V vv(unsigned o, const V& a, const V& b) { return o == 0 ? (a && b) : o == 1 ? (a || b) : (a ^ b); }
template<class V> V vs(unsigned o, const V& a, const bool& b) { return o == 0 ? (a && b) : o == 1 ? (a || b) : (a ^ b); }
template<class V> V sv(unsigned o, const bool& a, const V& b) { return o == 0 ? (a && b) : o == 1 ? (a || b) : (a ^ b); }
template<class V> void cv(unsigned o, V& a, const V& b) { if (o == 0) a &= b; else if (o == 1) a |= b; else a ^= b; }
template<class V> void cs(unsigned o, V& a, const bool& b) { if (o == 0) a &= b; else if (o == 1) a |= b; else a ^= b; }

template<class V> void ops(Case& c) {
    const unsigned N = Tr<V>::N;
    V a = vBool<V>(c, "a"), b = vBool<V>(c, "b"); bool s = c.coin(); c.note("s", "%d", s);
    Arr<V> A = arr(a), B = arr(b), w;
    for (unsigned o = 0; o < 3; ++o) {
        for (unsigned i = 0; i < N; ++i) w[i] = op1(o, A[i], B[i]);
        eqB(c, vv(o, a, b), w, ON[o]); { V t = a; cv(o, t, b); eqB(c, t, w, "compound vec"); }
        for (unsigned i = 0; i < N; ++i) w[i] = op1(o, A[i], s);
        eqB(c, vs(o, a, s), w, "vec op bool"); { V t = a; cs(o, t, s); eqB(c, t, w, "compound bool"); }
        eqB(c, sv(o, s, a), w, "bool op vec");
        for (unsigned i = 0; i < N; ++i) w[i] = op1(o, A[i], A[i]);
        { V t = a; cv(o, t, t); eqB(c, t, w, "v op= v"); }
        unsigned k = unsigned(c.below(N)); for (unsigned i = 0; i < N; ++i) w[i] = op1(o, A[i], A[k]);
        { V t = a; cs(o, t, t[k]); eqB(c, t, w, "v op= v[k]"); }
    }
    for (unsigned i = 0; i < N; ++i) w[i] = !A[i];
    eqB(c, !a, w, "not");
    for (unsigned i = 0; i < N; ++i) w[i] = A[i] == B[i];
    eqB(c, zcm::equal(a, b), w, "equal");
    for (unsigned i = 0; i < N; ++i) w[i] = A[i] != B[i];
    eqB(c, zcm::notEqual(a, b), w, "notEqual");
    bool al = true, an = false, eq = true;
    for (unsigned i = 0; i < N; ++i) { al = al && A[i]; an = an || A[i]; eq = eq && A[i] == B[i]; }
    CHECK(zcm::all(a) == al, "all%s", show(a).c_str());
    CHECK(zcm::any(a) == an, "any%s", show(a).c_str());
    CHECK((a == b) == eq, "%s == %s", show(a).c_str(), show(b).c_str());
    CHECK((a != b) == !eq, "%s != %s", show(a).c_str(), show(b).c_str());
    // consequences every program relies on
    CHECK(zcm::any(a) == !zcm::all(!a), "de Morgan");
    CHECK((!(a && b)) == (!a || !b), "de Morgan");
    CHECK(((a ^ b) ^ b) == a, "xor is its own inverse");
    eqB(c, a, A, "operand unchanged"); eqB(c, b, B, "operand unchanged");
}
template<class V> void history(Case& c) {
    const unsigned N = Tr<V>::N; V r[3]; Arr<V> m[3];
    for (int i = 0; i < 3; ++i) { r[i] = vBool<V>(c, "r"); m[i] = arr(r[i]); }
    unsigned steps = 1 + unsigned(c.below(24));
    for (unsigned s = 0; s < steps; ++s) {
        unsigned kind = unsigned(c.below(8)), d = unsigned(c.below(3)), x = unsigned(c.below(3)), y = unsigned(c.below(3)), o = unsigned(c.below(3)), k = unsigned(c.below(N)); bool b = c.coin();
        if (c.verbose) c.say(fmt("[%u: d%u x%u y%u %s k%u b%d]", kind, d, x, y, ON[o], k, b));
        Arr<V> w = m[d];
        for (unsigned i = 0; i < N; ++i) switch (kind) {
            case 0: w[i] = op1(o, m[x][i], m[y][i]); break; case 1: w[i] = op1(o, m[x][i], b); break; case 2: w[i] = op1(o, b, m[x][i]); break;
            case 3: w[i] = op1(o, m[d][i], m[x][i]); break; case 4: w[i] = op1(o, m[d][i], m[x][k]); break;
            case 5: w[i] = !m[x][i]; break; case 6: if (i == k) w[i] = b; break; case 7: w[i] = m[x][i] == m[y][i]; break; }
        switch (kind) {
            case 0: r[d] = vv(o, r[x], r[y]); break; case 1: r[d] = vs(o, r[x], b); break; case 2: r[d] = sv(o, b, r[x]); break;
            case 3: cv(o, r[d], r[x]); break; case 4: cs(o, r[d], r[x][k]); break; case 5: r[d] = !r[x]; break; case 6: r[d][k] = b; break;
            case 7: r[d] = zcm::equal(r[x], r[y]); break; }
        m[d] = w;
        for (int i = 0; i < 3; ++i) eqB(c, r[i], m[i], "register");
    }
}
LAW_W(ops2, 2) { ops<bvec2>(c); }
LAW_W(ops3, 2) { ops<bvec3>(c); }
LAW_W(ops4, 3) { ops<bvec4>(c); }
LAW(history2) { history<bvec2>(c); }
LAW(history3) { history<bvec3>(c); }
LAW(history4) { history<bvec4>(c); }
