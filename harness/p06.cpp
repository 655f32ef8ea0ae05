#include "p06.hpp"
// ---- scalar components ----------------------------------------------------------------------
template<class V> void expect(Case& c, const V& v, const Arr<V>& w, const char* what, const char* name) {
    for (unsigned i = 0; i < w.size(); ++i) { ++c.oracle; auto g = at(v, i); auto e = w[i]; if (memcmp(&g, &e, sizeof g) && !(g != g && e != e)) throw Fail{fmt("%s on component '%s': component %u is %.9g, expected %.9g", what, name, i, double(g), double(e))}; }
}
template<class V, class GET> void arith(Case& c, unsigned i, const char* name, GET get, V v, V u, typename Tr<V>::T s, std::true_type) {
    using E = float; Arr<V> w; V t;
    auto run = [&](const char* what, E r, auto f) { t = v; f(get(t)); w = arr(v); w[i] = r; expect<V>(c, t, w, what, name); };
    E x = at(v, i);
    run("+=", x + s, [&](auto& p) { p += s; }); run("-=", x - s, [&](auto& p) { p -= s; }); run("*=", x * s, [&](auto& p) { p *= s; }); run("/=", x / s, [&](auto& p) { p /= s; });
    E got = 0;
    run("++p", x + 1, [&](auto& p) { got = ++p; }); eqBits(c, got, x + 1, "value of ++p"); run("p++", x + 1, [&](auto& p) { got = p++; }); eqBits(c, got, x, "value of p++");
    run("--p", x - 1, [&](auto& p) { got = --p; }); eqBits(c, got, x - 1, "value of --p"); run("p--", x - 1, [&](auto& p) { got = p--; }); eqBits(c, got, x, "value of p--");
    (void)u;
}
template<class V, class GET> void arith(Case& c, unsigned i, const char* name, GET get, V v, V u, typename Tr<V>::T s, std::false_type) {
    using E = int32_t; Arr<V> w; V t; E x = at(v, i);
    auto run = [&](const char* what, E r, auto f) { t = v; f(get(t)); w = arr(v); w[i] = r; expect<V>(c, t, w, what, name); };
    auto fits = [](int64_t q) { return q >= INT32_MIN && q <= INT32_MAX; };
    if (fits(int64_t(x) + s)) run("+=", x + s, [&](auto& p) { p += s; });
    if (fits(int64_t(x) - s)) run("-=", x - s, [&](auto& p) { p -= s; });
    if (fits(int64_t(x) * s)) run("*=", x * s, [&](auto& p) { p *= s; });
    if (s != 0 && !(x == INT32_MIN && s == -1)) { run("/=", x / s, [&](auto& p) { p /= s; }); run("%=", x % s, [&](auto& p) { p %= s; }); }
    run("|=", x | s, [&](auto& p) { p |= s; }); run("&=", x & s, [&](auto& p) { p &= s; }); run("^=", x ^ s, [&](auto& p) { p ^= s; });
    int32_t sh = s & 31; run(">>=", x >> sh, [&](auto& p) { p >>= sh; });
    if (x >= 0 && (int64_t(x) << sh) <= INT32_MAX) run("<<=", x << sh, [&](auto& p) { p <<= sh; });
    E got = 0;
    if (x != INT32_MAX) { run("++p", x + 1, [&](auto& p) { got = ++p; }); eqInt(c, got, x + 1, "value of ++p"); run("p++", x + 1, [&](auto& p) { got = p++; }); eqInt(c, got, x, "value of p++"); }
    if (x != INT32_MIN) { run("--p", x - 1, [&](auto& p) { got = --p; }); eqInt(c, got, x - 1, "value of --p"); run("p--", x - 1, [&](auto& p) { got = p--; }); eqInt(c, got, x, "value of p--"); }
    (void)u;
}
// assignment that reports, instead of failing to build, when the library does not allow it
template<class P, class S> auto assign(int, P& p, const S& s) -> decltype(p = s, void()) { p = s; }
template<class P, class S> void assign(long, P&, const S&) { throw Fail{"this component cannot be assigned: `v.name = value` does not compile"}; }
template<class V, class GET> void scalarView(Case& c, unsigned i, const char* name, GET get) {
    using E = typename Tr<V>::T; constexpr bool F = std::is_same<E, float>::value;
    if (c.verbose) c.say(std::string(Tr<V>::name()) + "." + name);
    auto draw = [&]() -> E { return F ? E(anyFinite(c)) : E(anyInt(c)); };
    V v = vecBy<V>(c, "v", draw), u = vecBy<V>(c, "u", draw), t; E s = draw(); Arr<V> w; const V& kv = v;
    E r = get(v), kr = get(kv), fr = format_as(get(kv)); w = arr(v); w[i] = r; expect<V>(c, v, w, "read", name); w[i] = kr; expect<V>(c, v, w, "const read", name); w[i] = fr; expect<V>(c, v, w, "format_as", name);
    t = v; assign(0, get(t), s); w = arr(v); w[i] = s; expect<V>(c, t, w, "= scalar", name);
    t = v; assign(0, get(t), get(u)); w = arr(v); w[i] = at(u, i); expect<V>(c, t, w, "= same component of another vector", name);
    { const V ku = u; t = v; assign(0, get(t), get(ku)); expect<V>(c, t, w, "= same component of a const vector", name); }
    t = v; assign(0, get(t), get(t)); expect<V>(c, t, arr(v), "= itself", name);
    unsigned j = unsigned(c.below(Tr<V>::N)); t = v; assign(0, get(t), t[j]); w = arr(v); w[i] = at(v, j); expect<V>(c, t, w, "= other component", name);
    t = v; assign(0, get(t), E(u.y)); w = arr(v); w[i] = at(u, 1); expect<V>(c, t, w, "= u.y value", name);
    t = v; assign(0, get(t), u.y); expect<V>(c, t, w, "= u.y", name); t = v; assign(0, get(t), u.x); w[i] = at(u, 0); expect<V>(c, t, w, "= u.x", name);
    t = v; assign(0, get(t), t.y); w = arr(v); w[i] = at(v, 1); expect<V>(c, t, w, "= own y", name);
    arith<V>(c, i, name, get, v, u, s, std::integral_constant<bool, F>());
}
#define VIEW(V, i, n) if (k-- == 0) return scalarView<V>(c, i, #n, [](auto& v) -> auto& { return v.n; });
#define VIEWLAW(law, V, COUNT, ...) LAW_W(law, 2) { unsigned k = unsigned(c.below(COUNT)); __VA_ARGS__ }
VIEWLAW(n_vec2, vec2, 6, VIEW(vec2, 0, x) VIEW(vec2, 1, y) VIEW(vec2, 0, r) VIEW(vec2, 1, g) VIEW(vec2, 0, s) VIEW(vec2, 1, t))
VIEWLAW(n_ivec2, ivec2, 6, VIEW(ivec2, 0, x) VIEW(ivec2, 1, y) VIEW(ivec2, 0, r) VIEW(ivec2, 1, g) VIEW(ivec2, 0, s) VIEW(ivec2, 1, t))
VIEWLAW(n_vec3, vec3, 9, VIEW(vec3, 0, x) VIEW(vec3, 1, y) VIEW(vec3, 2, z) VIEW(vec3, 0, r) VIEW(vec3, 1, g) VIEW(vec3, 2, b) VIEW(vec3, 0, s) VIEW(vec3, 1, t) VIEW(vec3, 2, p))
VIEWLAW(n_ivec3, ivec3, 9, VIEW(ivec3, 0, x) VIEW(ivec3, 1, y) VIEW(ivec3, 2, z) VIEW(ivec3, 0, r) VIEW(ivec3, 1, g) VIEW(ivec3, 2, b) VIEW(ivec3, 0, s) VIEW(ivec3, 1, t) VIEW(ivec3, 2, p))
VIEWLAW(n_vec4, vec4, 12, VIEW(vec4, 0, x) VIEW(vec4, 1, y) VIEW(vec4, 2, z) VIEW(vec4, 3, w) VIEW(vec4, 0, r) VIEW(vec4, 1, g) VIEW(vec4, 2, b) VIEW(vec4, 3, a) VIEW(vec4, 0, s) VIEW(vec4, 1, t) VIEW(vec4, 2, p) VIEW(vec4, 3, q))
VIEWLAW(n_ivec4, ivec4, 12, VIEW(ivec4, 0, x) VIEW(ivec4, 1, y) VIEW(ivec4, 2, z) VIEW(ivec4, 3, w) VIEW(ivec4, 0, r) VIEW(ivec4, 1, g) VIEW(ivec4, 2, b) VIEW(ivec4, 3, a) VIEW(ivec4, 0, s) VIEW(ivec4, 1, t) VIEW(ivec4, 2, p) VIEW(ivec4, 3, q))
// assigning whole vectors, through copies and arrays, moves every component
template<class V> void copies(Case& c) {
    using E = typename Tr<V>::T; constexpr bool F = std::is_same<E, float>::value; auto draw = [&]() -> E { return F ? E(anyFloat(c)) : E(anyInt(c)); };
    V a = vecBy<V>(c, "a", draw), b = vecBy<V>(c, "b", draw); const Arr<V> A = arr(a), B = arr(b);
    V t = a; expect<V>(c, t, A, "copy", "all"); V& r = (t = b); expect<V>(c, t, B, "assign", "all"); CHECK((void*)&r == (void*)&t, "assignment returns its target");
    t = std::move(a); expect<V>(c, t, A, "move", "all"); expect<V>(c, b, B, "source", "all"); t = *&t; expect<V>(c, t, A, "self-assign", "all");
    std::swap(a, b); expect<V>(c, a, B, "swap", "all"); expect<V>(c, b, A, "swap", "all");
    V arr3[3] = {a, b, a}, cp[3]; std::copy(arr3, arr3 + 3, cp); expect<V>(c, cp[1], A, "array copy", "all"); expect<V>(c, cp[2], B, "array copy", "all");
}
LAW(copy_vec) { copies<vec2>(c); copies<vec3>(c); copies<vec4>(c); }
LAW(copy_ivec) { copies<ivec2>(c); copies<ivec3>(c); copies<ivec4>(c); }
LAW(copy_mat) { copies<mat2>(c); copies<mat3>(c); copies<mat4>(c); copies<quat>(c); }
