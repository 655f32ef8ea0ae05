// P01: arithmetic on float vectors is exactly componentwise IEEE single arithmetic.
#include "gen.hpp"
using namespace pbt;

static float op1(unsigned o, float a, float b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
static const char* ON[] = {"+", "-", "*", "/"};

template<class V> V vv(unsigned o, const V& a, const V& b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template<class V> V vs(unsigned o, const V& a, const float& b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template<class V> V sv(unsigned o, const float& a, const V& b) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template<class V> void cv(unsigned o, V& a, const V& b) { switch (o) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } }
template<class V> void cs(unsigned o, V& a, const float& b) { switch (o) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } }

template<class V> void eqArr(Case& c, const V& got, const Arr<V>& want, const char* what) { for (unsigned i = 0; i < want.size(); ++i) eqBits(c, at(got, i), want[i], what, int(i)); }

template<class V> void binary(Case& c) {
    V a = vAny<V>(c, "a"), b = vAny<V>(c, "b"); float s = anyFloat(c, "s"); unsigned o = unsigned(c.below(4)); c.note("op", "%s", ON[o]);
    const unsigned N = Tr<V>::N; Arr<V> w;
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), at(b, i));
    V a0 = a, b0 = b;
    eqArr(c, vv(o, a, b), w, "vec op vec");
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), s);
    eqArr(c, vs(o, a, s), w, "vec op scalar");
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, s, at(a, i));
    eqArr(c, sv(o, s, a), w, "scalar op vec");
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), at(a, i));
    eqArr(c, vv(o, a, a), w, "vec op itself");
    eqArr(c, a, arr(a0), "left operand unchanged"); eqArr(c, b, arr(b0), "right operand unchanged");
}
template<class V> void compound(Case& c) {
    V a = vAny<V>(c, "a"), b = vAny<V>(c, "b"); float s = anyFloat(c, "s"); unsigned o = unsigned(c.below(4)); c.note("op=", "%s", ON[o]);
    const unsigned N = Tr<V>::N; Arr<V> w; V t;
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), at(b, i));
    t = a; cv(o, t, b); eqArr(c, t, w, "vec op= vec");
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), s);
    t = a; cs(o, t, s); eqArr(c, t, w, "vec op= scalar");
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), at(a, i));
    t = a; cv(o, t, t); eqArr(c, t, w, "v op= v");
    unsigned k = unsigned(c.below(N)); float sk = at(a, k);
    for (unsigned i = 0; i < N; ++i) w[i] = op1(o, at(a, i), sk);
    t = a; cs(o, t, t[k]); eqArr(c, t, w, "v op= v[k]");
}
template<class V> void unary(Case& c) {
    V a = vAny<V>(c, "a"); const unsigned N = Tr<V>::N; Arr<V> w = arr(a), in = arr(a), de = arr(a);
    eqArr(c, +a, w, "unary +");
    for (unsigned i = 0; i < N; ++i) { w[i] = -w[i]; in[i] += 1.0f; de[i] -= 1.0f; }
    eqArr(c, -a, w, "unary -");
    V t = a; V& r = ++t; eqArr(c, t, in, "++v"); CHECK((void*)&r == (void*)&t, "++v must return v itself");
    t = a; V u = t++; eqArr(c, t, in, "v++ effect"); eqArr(c, u, arr(a), "v++ result");
    t = a; V& r2 = --t; eqArr(c, t, de, "--v"); CHECK((void*)&r2 == (void*)&t, "--v must return v itself");
    t = a; u = t--; eqArr(c, t, de, "v-- effect"); eqArr(c, u, arr(a), "v-- result");
}
template<class V> void equality(Case& c) {
    V a = vAny<V>(c, "a"), b = a; const unsigned N = Tr<V>::N;
    switch (c.below(6)) {
    case 0: break;
    case 4: case 5: b = cousin(c, "b", a); break;
    case 1: b = vAny<V>(c, "b"); break;
    case 2: { unsigned k = unsigned(c.below(N)); put(b, k, anyFloat(c, "bk")); break; }
    case 3: for (unsigned i = 0; i < N; ++i) if (at(b, i) == 0) put(b, i, -at(b, i)); break;
    }
    bool e = true; for (unsigned i = 0; i < N; ++i) e = e && at(a, i) == at(b, i);
    CHECK((a == b) == e, "%s vs %s", show(a).c_str(), show(b).c_str());
    CHECK((a != b) == !e, "%s vs %s", show(a).c_str(), show(b).c_str());
    CHECK((b == a) == e, "swapped: %s vs %s", show(a).c_str(), show(b).c_str());
}
// a history of operations on four registers against an array model
template<class V> void history(Case& c) {
    const unsigned N = Tr<V>::N; V r[4]; Arr<V> m[4];
    for (int i = 0; i < 4; ++i) { r[i] = vFin<V>(c, 8, "r"); m[i] = arr(r[i]); }
    unsigned steps = 1 + unsigned(c.below(24));
    for (unsigned s = 0; s < steps; ++s) {
        unsigned d = unsigned(c.below(4)), x = unsigned(c.below(4)), y = unsigned(c.below(4)), o = unsigned(c.below(4)), k = unsigned(c.below(N));
        unsigned kind = unsigned(c.below(11)); if (c.verbose) c.say(fmt("[%u: d%u x%u y%u %s k%u]", kind, d, x, y, ON[o], k));
        Arr<V> w = m[d]; auto L = [&](auto f) { for (unsigned i = 0; i < N; ++i) w[i] = f(i); };
        switch (kind) {
        case 0: L([&](unsigned i) { return op1(o, m[x][i], m[y][i]); }); r[d] = vv(o, r[x], r[y]); break;
        case 1: { float f = m[y][k]; L([&](unsigned i) { return op1(o, m[x][i], f); }); r[d] = vs(o, r[x], f); break; }
        case 2: { float f = m[y][k]; L([&](unsigned i) { return op1(o, f, m[x][i]); }); r[d] = sv(o, f, r[x]); break; }
        case 3: L([&](unsigned i) { return op1(o, m[d][i], m[x][i]); }); cv(o, r[d], r[x]); break;
        case 4: { float f = m[x][k]; L([&](unsigned i) { return op1(o, m[d][i], f); }); cs(o, r[d], r[x][k]); break; }
        case 5: L([&](unsigned i) { return -m[x][i]; }); r[d] = -r[x]; break;
        case 6: L([&](unsigned i) { return m[d][i] + 1.0f; }); if (o & 1) ++r[d]; else r[d]++; break;
        case 7: L([&](unsigned i) { return m[d][i] - 1.0f; }); if (o & 1) --r[d]; else r[d]--; break;
        case 8: { float f = finite(c, 4, "f"); L([&](unsigned i) { return i == k ? f : m[d][i]; }); r[d][k] = f; break; }
        case 9: { int n = int(c.range(-3, 3)); L([&](unsigned i) { return m[x][i] * float(n); }); r[d] = r[x] * n; break; }
        case 10: { float f = finite(c, 4, "f"); L([&](unsigned) { return f; }); r[d] = V(f); break; }
        }
        m[d] = w;
        for (int i = 0; i < 4; ++i) for (unsigned j = 0; j < N; ++j) {
            ++c.oracle; if (!same(at(r[i], j), m[i][j])) throw Fail{fmt("step %u kind %u: register %d component %u is %a, model %a", s, kind, i, j, at(r[i], j), m[i][j])}; }
    }
}
LAW_W(binary2, 3) { binary<vec2>(c); }
LAW_W(binary3, 3) { binary<vec3>(c); }
LAW_W(binary4, 3) { binary<vec4>(c); }
LAW_W(compound2, 2) { compound<vec2>(c); }
LAW_W(compound3, 2) { compound<vec3>(c); }
LAW_W(compound4, 2) { compound<vec4>(c); }
LAW(unary2) { unary<vec2>(c); }
LAW(unary3) { unary<vec3>(c); }
LAW(unary4) { unary<vec4>(c); }
LAW(equality2) { equality<vec2>(c); }
LAW(equality3) { equality<vec3>(c); }
LAW(equality4) { equality<vec4>(c); }
LAW(history2) { history<vec2>(c); }
LAW(history3) { history<vec3>(c); }
LAW(history4) { history<vec4>(c); }
