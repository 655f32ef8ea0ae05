// P03: < <= > >= on integer vectors are the lexicographic total order, so the types work as keys.
#include "gen.hpp"
#include <map>
#include <set>
using namespace pbt;

// vectors from a small neighbourhood, so that prefixes tie often
template<class V> V near3(Case& c, const char* name, const V* base = nullptr) {
    const unsigned N = Tr<V>::N; V v;
    if (base && c.chance(5)) return cousin(c, name, *base);
    if (base && c.below(3)) { v = *base; unsigned k = unsigned(c.below(N)); int32_t x = at(v, k);
        switch (c.below(4)) { case 0: break; case 1: put(v, k, x == INT32_MAX ? x : x + 1); break; case 2: put(v, k, x == INT32_MIN ? x : x - 1); break; case 3: put(v, k, anyInt(c, "n")); }
        return shown(c, name, v); }
    if (c.coin()) return vInt<V>(c, name);
    Arr<V> a; for (auto& x : a) { x = int32_t(c.range(-2, 2)); c.payload(uint32_t(x)); }
    return shown(c, name, mk<V>(a));
}
template<class V> void order(Case& c) {
    V a = near3<V>(c, "a"), b = near3<V>(c, "b", &a), d = near3<V>(c, "c", &b); auto A = arr(a), B = arr(b);
    bool lt = A < B, gt = B < A;
    CHECK((a < b) == lt && (b < a) == gt, "%s < %s", show(a).c_str(), show(b).c_str());
    CHECK((a > b) == gt && (b > a) == lt, "%s > %s", show(a).c_str(), show(b).c_str());
    CHECK((a <= b) == !gt && (b <= a) == !lt, "%s <= %s", show(a).c_str(), show(b).c_str());
    CHECK((a >= b) == !lt && (b >= a) == !gt, "%s >= %s", show(a).c_str(), show(b).c_str());
    CHECK(!(a < a) && (a <= a) && (a >= a) && !(a > a), "irreflexive: %s", show(a).c_str());
    CHECK(int(a < b) + int(b < a) + int(a == b) == 1, "trichotomy: %s %s", show(a).c_str(), show(b).c_str());
    if (a < b && b < d) CHECK(a < d, "transitive: %s %s %s", show(a).c_str(), show(b).c_str(), show(d).c_str());
    if (!(a < b) && !(b < d)) CHECK(!(a < d), "negatively transitive: %s %s %s", show(a).c_str(), show(b).c_str(), show(d).c_str());
}
// a history of map operations against the same history on the component arrays
template<class V> void mapHistory(Case& c) {
    std::map<V, int> real; std::map<Arr<V>, int> model; std::vector<V> seen;
    struct Rev { bool operator()(const V& x, const V& y) const { return x > y; } }; std::set<V, Rev> rs;
    unsigned steps = 1 + unsigned(c.below(24));
    for (unsigned s = 0; s < steps; ++s) {
        V k = seen.empty() ? near3<V>(c, "k") : near3<V>(c, "k", &seen[c.below(seen.size())]); seen.push_back(k);
        switch (c.below(4)) {
        case 0: case 1: real[k] = int(s); model[arr(k)] = int(s); rs.insert(k); break;
        case 2: CHECK(real.erase(k) == model.erase(arr(k)), "erase %s", show(k).c_str()); rs.erase(k); break;
        case 3: { auto i = real.lower_bound(k); auto j = model.lower_bound(arr(k)); CHECK((i == real.end()) == (j == model.end()), "lower_bound %s", show(k).c_str());
                  if (i != real.end()) CHECK(arr(i->first) == j->first, "lower_bound %s", show(k).c_str()); break; }
        }
        CHECK(real.size() == model.size() && rs.size() == model.size(), "sizes %zu %zu", real.size(), model.size());
    }
    auto j = model.begin(); for (auto& kv : real) { CHECK(arr(kv.first) == j->first && kv.second == j->second, "iteration order"); ++j; }
    auto q = model.rbegin(); for (auto& k : rs) { CHECK(arr(k) == q->first, "reverse iteration order"); ++q; }
}
template<class V> void sorting(Case& c) {
    std::vector<V> v; std::vector<Arr<V>> m; unsigned n = 2 + unsigned(c.below(20));
    for (unsigned i = 0; i < n; ++i) { v.push_back(near3<V>(c, "v", v.empty() ? nullptr : &v[c.below(v.size())])); m.push_back(arr(v.back())); }
    switch (c.below(3)) {
    case 0: std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); break;
    case 1: std::sort(v.begin(), v.end(), [](const V& a, const V& b) { return a > b; }); std::sort(m.begin(), m.end(), [](auto& a, auto& b) { return a > b; }); break;
    case 2: { auto x = *std::max_element(v.begin(), v.end(), [](const V& a, const V& b) { return !(a >= b); }); CHECK(arr(x) == *std::max_element(m.begin(), m.end()), "max element"); return; }
    }
    for (unsigned i = 0; i < n; ++i) CHECK(arr(v[i]) == m[i], "sorted position %u", i);
}
LAW_W(order2, 3) { order<ivec2>(c); }
LAW_W(order3, 3) { order<ivec3>(c); }
LAW_W(order4, 3) { order<ivec4>(c); }
LAW(map2) { mapHistory<ivec2>(c); }
LAW(map3) { mapHistory<ivec3>(c); }
LAW(map4) { mapHistory<ivec4>(c); }
LAW(sort2) { sorting<ivec2>(c); }
LAW(sort3) { sorting<ivec3>(c); }
LAW(sort4) { sorting<ivec4>(c); }
