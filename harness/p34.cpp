// P34: every operation on tightly allocated operands in builds with sanitizers; only their reports, traps and crashes count.
#include "ops_gen.hpp"
#include "p06.hpp"
using namespace pbt;
namespace {
const OpTable& T() { return *zcm_ops_table(); }
}
LAW_W(in_domain_calls_are_clean, 100) {
    const Op& op = T().ops[c.below(unsigned(T().n))]; OpIn in; drawOp(c, op, in); OpOut o; op.call(in, o);
    CHECK(o.n > 0, "%s", op.label);
}
// named components and swizzles of an object that ends exactly where its allocation ends
template<class V, class W, size_t K> void tight(Case& c, const Entry<V, W> (&tab)[K]) {
    V v = mk<V>([&] { Arr<V> a; for (auto& x : a) x = typename Tr<V>::T(anyInt(c) / 2); return a; }());
    V* p = (V*)malloc(sizeof(V)); memcpy((void*)p, (const void*)&v, sizeof v); size_t k = c.below(K); if (c.verbose) { shown(c, "v", v); c.say(tab[k].name); }
    W a = tab[k].get(*p), b = tab[k].fmtd(*p); Arr<W> x = arr(a), y = arr(b); ++c.oracle; free((void*)p); volatile bool sink = x[0] == y[0]; (void)sink;
}
#define TIGHT(law, V, W, SETS, M) static constexpr Entry<V, W> tab_##law[] = { SETS(M, V, W) }; LAW(law) { tight(c, tab_##law); }
#define SET4(M, V, W) M(V, W, x, y, z, w)
#define SET3(M, V, W) M(V, W, r, g, b)
TIGHT(z_vec2_2, vec2, vec2, SETS2, N2_L2) TIGHT(z_vec3_2, vec3, vec2, SETS3, N3_L2) TIGHT(z_vec4_2, vec4, vec2, SETS4, N4_L2)
TIGHT(z_ivec3_2, ivec3, ivec2, SETS3, N3_L2) TIGHT(z_ivec4_2, ivec4, ivec2, SETS4, N4_L2)
TIGHT(z_vec3_3, vec3, vec3, SET3, N3_L3) TIGHT(z_vec4_3, vec4, vec3, SET4, N4_L3) TIGHT(z_ivec3_3, ivec3, ivec3, SET3, N3_L3)
// single components written through views
template<class V> void writes(Case& c) {
    using E = typename Tr<V>::T; V* p = (V*)malloc(sizeof(V)); V v = mk<V>([&] { Arr<V> a; for (auto& x : a) x = E(anyInt(c) / 4); return a; }()); memcpy((void*)p, (const void*)&v, sizeof v);
    E s = E(anyInt(c) % 1000 + 2000); shown(c, "v", v); ++c.oracle;
    p->x = s; p->y += s; p->r -= s; p->g = p->x; p->s = p->t; ++p->x; p->y--; p->x = E(int(p->y)); E k = (*p)[Tr<V>::N - 1u]; (*p)[Tr<V>::N - 1u] = k; free((void*)p);
}
LAW(w_vec2) { writes<vec2>(c); } LAW(w_vec3) { writes<vec3>(c); } LAW(w_vec4) { writes<vec4>(c); }
LAW(w_ivec2) { writes<ivec2>(c); } LAW(w_ivec3) { writes<ivec3>(c); } LAW(w_ivec4) { writes<ivec4>(c); }
