// P05: constructors, indexing, pointers and conversions place every component where documented.
#include "gen.hpp"
#include <type_traits>
using namespace pbt;

template<class V> void eqV(Case& c, const V& got, const Arr<V>& want, const char* what) {
    for (unsigned i = 0; i < Tr<V>::N; ++i) { ++c.oracle; auto g = at(got, i); auto w = want[i];
        if (memcmp(&g, &w, sizeof g) && !(double(w) != double(w) && double(g) != double(g))) throw Fail{fmt("%s[%u]: got %.9g expected %.9g", what, i, double(g), double(w))}; }
}
// builds a value in poisoned storage over a scrubbed stack, so that a component left out cannot pass for one written
__attribute__((noinline)) static void scrub() { volatile unsigned char b[768]; for (unsigned i = 0; i < sizeof b; i += 8) *(volatile uint64_t*)(b + i) = 0xA5A5A5A5A5A5A5A5ull; }
template<class F> __attribute__((noinline)) auto fresh(F f) -> decltype(f()) {
    using V = decltype(f()); alignas(16) unsigned char b[sizeof(V)]; memset(b, 0xA5, sizeof b); unsigned char* p = b; asm volatile("" : "+r"(p) : : "memory"); scrub();
    ::new ((void*)p) V(f()); asm volatile("" : : : "memory"); Arr<V> a; memcpy((void*)a.data(), p, sizeof a); return mk<V>(a);
}
#define FRESH(...) fresh([&] { return __VA_ARGS__; })
// component i of a part, or the scalar itself
template<class E> void flat(std::vector<E>& o, E s) { o.push_back(s); }
template<class E, class P> auto flat(std::vector<E>& o, const P& p) -> decltype(Tr<P>::N, void()) { for (unsigned i = 0; i < Tr<P>::N; ++i) o.push_back(at(p, i)); }
template<class V, class... P> void build(Case& c, const char* what, const P&... p) {
    std::vector<typename Tr<V>::T> o; int dummy[] = {(flat<typename Tr<V>::T>(o, p), 0)...}; (void)dummy;
    Arr<V> w; if (o.size() != w.size()) throw Fail{"harness: sizes"};
    std::copy(o.begin(), o.end(), w.begin());
    eqV(c, FRESH(V(p...)), w, what);
    eqV(c, FRESH(V{p...}), w, what);
}
template<class E> E scal(Case& c);
template<> float scal<float>(Case& c) { return anyFloat(c); }
template<> int32_t scal<int32_t>(Case& c) { return anyInt(c); }
template<> bool scal<bool>(Case& c) { bool b = c.coin(); c.payload(c.ipool.size() * 2 + b); c.ipool.push_back(b); return b; }
template<class V> V any(Case& c, const char* n) { return vecBy<V>(c, n, [&] { return scal<typename Tr<V>::T>(c); }); }
template<> bvec2 any<bvec2>(Case& c, const char* n) { return vBool<bvec2>(c, n); }
template<> bvec3 any<bvec3>(Case& c, const char* n) { return vBool<bvec3>(c, n); }
template<> bvec4 any<bvec4>(Case& c, const char* n) { return vBool<bvec4>(c, n); }

template<class V2, class V3, class V4> void vectors(Case& c) {
    using E = typename Tr<V2>::T;
    E x = scal<E>(c), y = scal<E>(c), z = scal<E>(c), w = scal<E>(c); V2 a = any<V2>(c, "a"), b = any<V2>(c, "b"); V3 d = any<V3>(c, "d");
    c.note("xyzw", "%.9g %.9g %.9g %.9g", double(x), double(y), double(z), double(w));
    build<V2>(c, "v2(x,y)", x, y);
    build<V3>(c, "v3(x,y,z)", x, y, z); build<V3>(c, "v3(xy,z)", a, z); build<V3>(c, "v3(x,yz)", x, a);
    build<V4>(c, "v4(x,y,z,w)", x, y, z, w); build<V4>(c, "v4(xyz,w)", d, w); build<V4>(c, "v4(x,yzw)", x, d);
    build<V4>(c, "v4(xy,zw)", a, b); build<V4>(c, "v4(xy,z,w)", a, z, w); build<V4>(c, "v4(x,yz,w)", x, a, w); build<V4>(c, "v4(x,y,zw)", x, y, b);
    Arr<V2> s2; s2.fill(x); eqV(c, FRESH(V2(x)), s2, "v2(s)"); Arr<V3> s3; s3.fill(x); eqV(c, FRESH(V3(x)), s3, "v3(s)"); Arr<V4> s4; s4.fill(x); eqV(c, FRESH(V4(x)), s4, "v4(s)");
    s2.fill(0); eqV(c, FRESH(V2()), s2, "v2()"); s3.fill(0); eqV(c, FRESH(V3()), s3, "v3()"); s4.fill(0); eqV(c, FRESH(V4()), s4, "v4()");
    { V4 t(x, y, z, w), u; u = t; V4 v2(t); eqV(c, u, Arr<V4>{{x, y, z, w}}, "assign"); eqV(c, v2, Arr<V4>{{x, y, z, w}}, "copy"); }
}
template<class V, class MK> void access(Case& c, MK make) {
    using E = typename Tr<V>::T; constexpr unsigned N = Tr<V>::N;
    V v = any<V>(c, "v"); const V& k = v; Arr<V> w = arr(v);
    for (unsigned i = 0; i < N; ++i) { Arr<V> g = w; g[i] = v[i]; eqV(c, mk<V>(g), w, "v[i]"); g[i] = k[i]; eqV(c, mk<V>(g), w, "const v[i]");
        CHECK((const void*)&v[i] == (const char*)(const void*)&v + i * sizeof(E), "v[%u] refers to component %u", i, i); }
    unsigned i = unsigned(c.below(N)); E e = scal<E>(c); V t = v; t[i] = e; Arr<V> u = w; u[i] = e; eqV(c, t, u, "v[i] = e");
    eqV(c, v, w, "reading leaves the vector alone");
    // make_* reads exactly N elements starting at any element address
    E buf[N + 5]; unsigned off = unsigned(c.below(4)); for (auto& q : buf) q = scal<E>(c);
    Arr<V> m; for (unsigned j = 0; j < N; ++j) m[j] = buf[off + j];
    eqV(c, FRESH(make(buf + off)), m, "make_");
}
template<class V> void pointer(Case& c) {
    using E = typename Tr<V>::T; constexpr unsigned N = Tr<V>::N;
    V v = any<V>(c, "v"); const V& k = v; E* p = zcm::value_ptr(v); const E* q = zcm::value_ptr(k);
    CHECK((void*)p == (void*)&v && (const void*)q == (const void*)&v, "value_ptr is the address of the first component");
    Arr<V> w = arr(v);
    for (unsigned i = 0; i < N; ++i) { E g = p[i]; E e = w[i]; ++c.oracle; if (memcmp(&g, &e, sizeof g)) throw Fail{fmt("value_ptr[%u]", i)}; }
    unsigned i = unsigned(c.below(N)); E e = scal<E>(c); p[i] = e; w[i] = e; eqV(c, v, w, "write through value_ptr");
}
template<class I, class B> void toBool(Case& c) {
    I v = any<I>(c, "v"); const I& k = v; B b = FRESH(B(k)); for (unsigned i = 0; i < Tr<I>::N; ++i) { unsigned char r; memcpy(&r, (char*)&b + i, 1);
        ++c.oracle; if (r != (at(v, i) != 0)) throw Fail{fmt("bvec(%s)[%u] is %u", show(v).c_str(), i, r)}; }
}
template<int n> void matrices(Case& c) {
    using M = typename MatOf<n>::M; using V = typename MatOf<n>::V;
    M m = any<M>(c, "m"); const M& k = m; Arr<M> w = arr(m);
    for (unsigned col = 0; col < n; ++col) {
        Arr<V> e; for (int r = 0; r < n; ++r) e[r] = w[col * n + r];
        eqV(c, FRESH(V(m[col])), e, "column"); eqV(c, FRESH(V(k[col])), e, "const column");
        for (unsigned r = 0; r < n; ++r) { eqBits(c, m[col][r], w[col * n + r], "m[col][row]"); eqBits(c, k[col][r], w[col * n + r], "const m[col][row]"); }
        CHECK((void*)&m[col] == (char*)(void*)&m + col * sizeof(V), "column %u in place", col);
    }
    unsigned col = unsigned(c.below(n)), row = unsigned(c.below(n)); float x = anyFloat(c);
    M t = m; t[col][row] = x; Arr<M> u = w; u[col * n + row] = x; eqV(c, t, u, "m[col][row] = x");
    V v = any<V>(c, "col"); t = m; t[col] = v; u = w; for (int r = 0; r < n; ++r) u[col * n + r] = at(v, r); eqV(c, t, u, "m[col] = v");
    u.fill(0); for (int i = 0; i < n; ++i) u[i * n + i] = x; eqV(c, FRESH(M(x)), u, "M(s) is s times identity");
    for (int i = 0; i < n; ++i) u[i * n + i] = 1; eqV(c, FRESH(M()), u, "M() is the identity");
}
LAW_W(vec, 3) { vectors<vec2, vec3, vec4>(c); }
LAW_W(ivec, 2) { vectors<ivec2, ivec3, ivec4>(c); }
LAW_W(bvec, 2) { vectors<bvec2, bvec3, bvec4>(c); }
LAW(acc_vec2) { access<vec2>(c, [](const float* p) { return zcm::make_vec2(p); }); pointer<vec2>(c); }
LAW(acc_vec3) { access<vec3>(c, [](const float* p) { return zcm::make_vec3(p); }); pointer<vec3>(c); }
LAW(acc_vec4) { access<vec4>(c, [](const float* p) { return zcm::make_vec4(p); }); pointer<vec4>(c); }
LAW(acc_ivec2) { access<ivec2>(c, [](const int32_t* p) { return zcm::make_ivec2(p); }); toBool<ivec2, bvec2>(c); }
LAW(acc_ivec3) { access<ivec3>(c, [](const int32_t* p) { return zcm::make_ivec3(p); }); toBool<ivec3, bvec3>(c); }
LAW(acc_ivec4) { access<ivec4>(c, [](const int32_t* p) { return zcm::make_ivec4(p); }); toBool<ivec4, bvec4>(c); }
LAW(acc_bvec2) { access<bvec2>(c, [](const bool* p) { return zcm::make_bvec2(p); }); pointer<bvec2>(c); }
LAW(acc_bvec3) { access<bvec3>(c, [](const bool* p) { return zcm::make_bvec3(p); }); pointer<bvec3>(c); }
LAW(acc_bvec4) { access<bvec4>(c, [](const bool* p) { return zcm::make_bvec4(p); }); pointer<bvec4>(c); }
LAW(acc_quat) { access<quat>(c, [](const float* p) { return zcm::make_quat(p); }); pointer<quat>(c); }
LAW(ptr_mat) { pointer<mat2>(c); pointer<mat3>(c); pointer<mat4>(c); }
LAW(mat_2) { matrices<2>(c); }
LAW(mat_3) { matrices<3>(c); }
LAW(mat_4) { matrices<4>(c); }
LAW_W(mat_ctor, 2) {
    float f[16]; unsigned shape = unsigned(c.below(8)); for (auto& x : f) { x = anyFloat(c); if (shape == 0) x = -std::fabs(finite(c, 8)); else if (shape == 1) x = float(c.range(-9, 9)); else if (shape == 2) x = float(c.below(100)) / 7.0f; c.payload(bitsOf(x)); }
    auto e2 = [&](const mat2& m, const char* s) { Arr<mat2> w; std::copy(f, f + 4, w.begin()); eqV(c, m, w, s); };
    auto e3 = [&](const mat3& m, const char* s) { Arr<mat3> w; std::copy(f, f + 9, w.begin()); eqV(c, m, w, s); };
    auto e4 = [&](const mat4& m, const char* s) { Arr<mat4> w; std::copy(f, f + 16, w.begin()); eqV(c, m, w, s); };
    auto v2 = [&](int i) { Arr<vec2> a; std::copy(f + i, f + i + 2, a.begin()); return mk<vec2>(a); };
    auto v3 = [&](int i) { Arr<vec3> a; std::copy(f + i, f + i + 3, a.begin()); return mk<vec3>(a); };
    auto v4 = [&](int i) { Arr<vec4> a; std::copy(f + i, f + i + 4, a.begin()); return mk<vec4>(a); };
    e2(FRESH(mat2(f[0], f[1], f[2], f[3])), "mat2(4 floats)"); e2(FRESH(mat2(v2(0), v2(2))), "mat2(columns)"); e2(FRESH(zcm::make_mat2(f)), "make_mat2");
    e3(FRESH(mat3(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8])), "mat3(9 floats)"); e3(FRESH(mat3(v3(0), v3(3), v3(6))), "mat3(columns)"); e3(FRESH(zcm::make_mat3(f)), "make_mat3");
    e4(FRESH(mat4(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15])), "mat4(16 floats)");
    e4(FRESH(mat4(v4(0), v4(4), v4(8), v4(12))), "mat4(columns)"); e4(FRESH(zcm::make_mat4(f)), "make_mat4");
    { float g[20]; std::copy(f, f + 16, g + 3); e2(FRESH(zcm::make_mat2(g + 3)), "make_mat2 at offset"); e3(FRESH(zcm::make_mat3(g + 3)), "make_mat3 at offset"); e4(FRESH(zcm::make_mat4(g + 3)), "make_mat4 at offset"); }
    // conversions between sizes: shared upper-left block, identity elsewhere
    mat2 m2 = mk<mat2>({{f[0], f[1], f[2], f[3]}}); mat3 a3 = FRESH(mat3(m2));
    eqV(c, a3, Arr<mat3>{{f[0], f[1], 0, f[2], f[3], 0, 0, 0, 1}}, "mat3(mat2)");
    Arr<mat3> w3; std::copy(f, f + 9, w3.begin()); mat3 m3 = mk<mat3>(w3); mat4 a4 = FRESH(mat4(m3));
    eqV(c, a4, Arr<mat4>{{f[0], f[1], f[2], 0, f[3], f[4], f[5], 0, f[6], f[7], f[8], 0, 0, 0, 0, 1}}, "mat4(mat3)");
    eqV(c, FRESH(static_cast<mat2>(m3)), Arr<mat2>{{f[0], f[1], f[3], f[4]}}, "mat2(mat3)");
    Arr<mat4> w4; std::copy(f, f + 16, w4.begin()); mat4 m4 = mk<mat4>(w4);
    eqV(c, FRESH(static_cast<mat3>(m4)), Arr<mat3>{{f[0], f[1], f[2], f[4], f[5], f[6], f[8], f[9], f[10]}}, "mat3(mat4)");
    eqV(c, FRESH(static_cast<mat3>(a4)), w3, "mat3(mat4(m)) == m");
    c.note("f", "%.9g ... %.9g", f[0], f[15]);
}
LAW(quat_ctor) {
    float w = anyFloat(c, "w"), x = anyFloat(c, "x"), y = anyFloat(c, "y"), z = anyFloat(c, "z"); Arr<quat> e{{x, y, z, w}}; vec3 v = mk<vec3>({{x, y, z}});
    eqV(c, FRESH(quat(w, x, y, z)), e, "quat(w,x,y,z)"); eqV(c, FRESH(quat::wxyz(w, x, y, z)), e, "quat::wxyz"); eqV(c, FRESH(quat(w, v)), e, "quat(s,v)"); eqV(c, FRESH(quat(v, w)), e, "quat(v,s)");
    eqV(c, FRESH(quat()), Arr<quat>{{0, 0, 0, 1}}, "quat()");
    quat q = mk<quat>(e); eqBits(c, q.x, x, "q.x"); eqBits(c, q.y, y, "q.y"); eqBits(c, q.z, z, "q.z"); eqBits(c, q.w, w, "q.w");
}
LAW(from_int) {
    int32_t i = anyInt(c); anyInt(c, "unused"); float f = float(i);
    Arr<vec2> a; a.fill(f); eqV(c, FRESH(vec2(i)), a, "vec2(int)"); Arr<vec3> b; b.fill(f); eqV(c, FRESH(vec3(i)), b, "vec3(int)"); Arr<vec4> d; d.fill(f); eqV(c, FRESH(vec4(i)), d, "vec4(int)");
}
LAW(bvec_fields) {
    bvec4 b = vBool<bvec4>(c, "b"); CHECK(b.x == at(b, 0) && b.y == at(b, 1) && b.z == at(b, 2) && b.w == at(b, 3), "bvec4 fields");
    bvec3 d = vBool<bvec3>(c, "d"); CHECK(d.x == at(d, 0) && d.y == at(d, 1) && d.z == at(d, 2), "bvec3 fields");
    bvec2 e = vBool<bvec2>(c, "e"); CHECK(e.x == at(e, 0) && e.y == at(e, 1), "bvec2 fields");
}
// layout facts GPU uploads rely on
template<class V> void layout(size_t n, size_t e, size_t al, pbt::Case& c) {
    CHECK(sizeof(V) == n * e, "sizeof(%s)", Tr<V>::name()); CHECK(std::is_standard_layout<V>::value, "%s", Tr<V>::name());
    CHECK(alignof(V) == al, "alignof(%s) is %zu", Tr<V>::name(), alignof(V));
    V a[3]; CHECK((char*)(void*)&a[2] - (char*)(void*)&a[0] == ptrdiff_t(2 * n * e), "arrays of %s are packed", Tr<V>::name());
}
LAW(layouts) {
    anyInt(c, "unused"); anyInt(c, "unused");
    layout<vec2>(2, 4, 4, c); layout<vec3>(3, 4, 4, c); layout<vec4>(4, 4, 16, c); layout<ivec2>(2, 4, 4, c); layout<ivec3>(3, 4, 4, c); layout<ivec4>(4, 4, 16, c);
    layout<bvec2>(2, 1, 1, c); layout<bvec3>(3, 1, 1, c); layout<bvec4>(4, 1, 1, c); layout<mat2>(4, 4, 4, c); layout<mat3>(9, 4, 4, c); layout<mat4>(16, 4, 16, c); layout<quat>(4, 4, 16, c);
}
