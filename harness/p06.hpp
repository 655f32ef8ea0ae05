#pragma once
// P06: named components and swizzles are views of exactly the components their names spell.
#include "gen.hpp"
#include <type_traits>
using namespace pbt;

template<class V, class W> struct Entry { const char* name; int idx[4]; W (*get)(const V&); W (*fmtd)(const V&); bool assignable; };

template<class V, class W, auto P> W readName(const V& v) { W r = v.*P; return r; }
template<class V, class W, auto P> W readFmt(const V& v) { return format_as(v.*P); }
template<class A, class W> constexpr bool canAssign() { return std::is_assignable<A&, W>::value || std::is_assignable<A&, const A&>::value; }
template<class V, class A> A memberType(A V::*);
#define ONE(V, W, n, ...) {#n, {__VA_ARGS__}, readName<V, W, &V::n>, readFmt<V, W, &V::n>, canAssign<decltype(memberType(&V::n)), W>()},
#define ONE2(V, W, a, i, b, j) ONE(V, W, a##b, i, j, 0, 0)
#define ONE3(V, W, a, i, b, j, d, k) ONE(V, W, a##b##d, i, j, k, 0)
#define ONE4(V, W, a, i, b, j, d, k, e, l) ONE(V, W, a##b##d##e, i, j, k, l)

// all words of length L over the first N letters of a set
#define N2_L2(V, W, x, y) ONE2(V, W, x, 0, x, 0) ONE2(V, W, x, 0, y, 1) ONE2(V, W, y, 1, x, 0) ONE2(V, W, y, 1, y, 1)
#define R3(V, W, a, i, x, y, z) ONE2(V, W, a, i, x, 0) ONE2(V, W, a, i, y, 1) ONE2(V, W, a, i, z, 2)
#define N3_L2(V, W, x, y, z) R3(V, W, x, 0, x, y, z) R3(V, W, y, 1, x, y, z) R3(V, W, z, 2, x, y, z)
#define Q3(V, W, a, i, b, j, x, y, z) ONE3(V, W, a, i, b, j, x, 0) ONE3(V, W, a, i, b, j, y, 1) ONE3(V, W, a, i, b, j, z, 2)
#define P3(V, W, a, i, x, y, z) Q3(V, W, a, i, x, 0, x, y, z) Q3(V, W, a, i, y, 1, x, y, z) Q3(V, W, a, i, z, 2, x, y, z)
#define N3_L3(V, W, x, y, z) P3(V, W, x, 0, x, y, z) P3(V, W, y, 1, x, y, z) P3(V, W, z, 2, x, y, z)
#define R4(V, W, a, i, x, y, z, w) ONE2(V, W, a, i, x, 0) ONE2(V, W, a, i, y, 1) ONE2(V, W, a, i, z, 2) ONE2(V, W, a, i, w, 3)
#define N4_L2(V, W, x, y, z, w) R4(V, W, x, 0, x, y, z, w) R4(V, W, y, 1, x, y, z, w) R4(V, W, z, 2, x, y, z, w) R4(V, W, w, 3, x, y, z, w)
#define Q4(V, W, a, i, b, j, x, y, z, w) ONE3(V, W, a, i, b, j, x, 0) ONE3(V, W, a, i, b, j, y, 1) ONE3(V, W, a, i, b, j, z, 2) ONE3(V, W, a, i, b, j, w, 3)
#define P4(V, W, a, i, x, y, z, w) Q4(V, W, a, i, x, 0, x, y, z, w) Q4(V, W, a, i, y, 1, x, y, z, w) Q4(V, W, a, i, z, 2, x, y, z, w) Q4(V, W, a, i, w, 3, x, y, z, w)
#define N4_L3(V, W, x, y, z, w) P4(V, W, x, 0, x, y, z, w) P4(V, W, y, 1, x, y, z, w) P4(V, W, z, 2, x, y, z, w) P4(V, W, w, 3, x, y, z, w)
#define U4(V, W, a, i, b, j, d, k, x, y, z, w) ONE4(V, W, a, i, b, j, d, k, x, 0) ONE4(V, W, a, i, b, j, d, k, y, 1) ONE4(V, W, a, i, b, j, d, k, z, 2) ONE4(V, W, a, i, b, j, d, k, w, 3)
#define T4(V, W, a, i, b, j, x, y, z, w) U4(V, W, a, i, b, j, x, 0, x, y, z, w) U4(V, W, a, i, b, j, y, 1, x, y, z, w) U4(V, W, a, i, b, j, z, 2, x, y, z, w) U4(V, W, a, i, b, j, w, 3, x, y, z, w)
#define S4(V, W, a, i, x, y, z, w) T4(V, W, a, i, x, 0, x, y, z, w) T4(V, W, a, i, y, 1, x, y, z, w) T4(V, W, a, i, z, 2, x, y, z, w) T4(V, W, a, i, w, 3, x, y, z, w)
#define N4_L4(V, W, x, y, z, w) S4(V, W, x, 0, x, y, z, w) S4(V, W, y, 1, x, y, z, w) S4(V, W, z, 2, x, y, z, w) S4(V, W, w, 3, x, y, z, w)

#define SETS2(M, V, W) M(V, W, x, y) M(V, W, r, g) M(V, W, s, t)
#define SETS3(M, V, W) M(V, W, x, y, z) M(V, W, r, g, b) M(V, W, s, t, p)
#define SETS4(M, V, W) M(V, W, x, y, z, w) M(V, W, r, g, b, a) M(V, W, s, t, p, q)

template<class V, class W, size_t K> void swizzle(Case& c, const Entry<V, W> (&tab)[K]) {
    Arr<V> a; for (auto& x : a) { if (std::is_same<typename Tr<V>::T, float>::value) x = typename Tr<V>::T(anyFinite(c)); else x = typename Tr<V>::T(anyInt(c)); }
    // distinct components, so that a wrong index cannot hide
    V v = mk<V>(a); int next = int(c.below(1000));
    for (unsigned i = 0; i < Tr<V>::N; ++i) for (unsigned j = 0; j < i; ++j) while (at(v, i) == at(v, j)) { put(v, i, typename Tr<V>::T(++next)); j = 0; }
    shown(c, "v", v); V before = v;
    for (size_t n = 0; n < 24; ++n) {
        const Entry<V, W>& e = tab[c.below(K)]; if (c.verbose) c.say(e.name);
        W g = e.get(v), f = e.fmtd(v);
        for (unsigned i = 0; i < Tr<W>::N; ++i) {
            ++c.oracle; auto want = at(before, unsigned(e.idx[i]));
            if (memcmp(&want, (const char*)&g + i * sizeof want, sizeof want)) throw Fail{fmt("%s.%s[%u] is %.9g, expected %.9g", show(v).c_str(), e.name, i, double(at(g, i)), double(want))};
            if (memcmp(&want, (const char*)&f + i * sizeof want, sizeof want)) throw Fail{fmt("format_as(%s.%s)[%u] is %.9g, expected %.9g", show(v).c_str(), e.name, i, double(at(f, i)), double(want))};
        }
        CHECK(!e.assignable, "swizzle %s is read-only: assigning it must not compile", e.name);
    }
    for (unsigned i = 0; i < Tr<V>::N; ++i) { auto x = at(v, i), y = at(before, i); CHECK(!memcmp(&x, &y, sizeof x), "reading a swizzle changed component %u", i); }
}
#define SWZ(law, V, W, SETS, M) static constexpr Entry<V, W> tab_##law[] = { SETS(M, V, W) }; LAW_W(law, 2) { swizzle(c, tab_##law); }
