// P26: hashing agrees with equality, every component takes part, and hashed containers behave as maps.
#include "gen.hpp"
#include <map>
#include <unordered_map>
#include <unordered_set>
using namespace pbt;
template<class T> T eltOf(Case& c);
template<> float eltOf<float>(Case& c) { return anyFinite(c, "f"); }
template<> int32_t eltOf<int32_t>(Case& c) { return anyInt(c, "i"); }
template<> bool eltOf<bool>(Case& c) { bool b = c.coin(); c.payload(b + 2 * c.shm->n); return b; }
template<class V> V val(Case& c, const char* n) { return vecBy<V>(c, n, [&] { return eltOf<typename Tr<V>::T>(c); }); }
// an equal value built another way: signs of zeros flipped, copied through a different object
static float twin(float f, bool flip) { return f == 0 && flip ? -f : f; }
static int32_t twin(int32_t i, bool) { return i; }
static bool twin(bool b, bool) { return b; }
static float other(Case& c, float f) { float g = f; while (g == f) g = anyFinite(c, "g"), g = g == f ? std::nextafterf(f, f > 0 ? 0.0f : 1.0f) : g; return g; }
static int32_t other(Case& c, int32_t i) { int32_t j = anyInt(c, "j"); return j == i ? int32_t(uint32_t(i) ^ 0x10001u) : j; }
static bool other(Case&, bool b) { return !b; }

template<class V> void hashes(Case& c) {
    V a = val<V>(c, "a"), b = a; const unsigned N = Tr<V>::N;
    for (unsigned i = 0; i < N; ++i) put(b, i, twin(at(a, i), c.coin()));
    shown(c, "b", b);
    CHECK(a == b, "values that differ only in the sign of zeros compare unequal: %s", show(a).c_str());
    CHECK(zcm::hash(a) == zcm::hash(b), "equal values hash to %zx and %zx: %s %s", zcm::hash(a), zcm::hash(b), show(a).c_str(), show(b).c_str());
    CHECK(std::hash<V>()(a) == zcm::hash(a) && std::hash<V>()(b) == zcm::hash(b), "std::hash and zcm::hash disagree on %s", show(a).c_str());
    // every component takes part: among several changes of component i alone, at least one changes the hash
    unsigned i = unsigned(c.below(N)); bool moved = false; int tries = sizeof(typename Tr<V>::T) == 1 ? 1 : 24;
    bool vb = c.verbose; c.verbose = false;
    for (int k = 0; k < tries && !moved; ++k) { V m = a; put(m, i, other(c, at(a, i))); moved = zcm::hash(m) != zcm::hash(a); }
    c.verbose = vb;
    CHECK(moved, "component %u never changes the hash of %s", i, show(a).c_str());
}
// every bit of a component takes part: flipped in many random surroundings, it changes the hash at least once
static float flip(float f, unsigned b) { return fromBits(bitsOf(f) ^ (1u << b)); }
static int32_t flip(int32_t i, unsigned b) { return int32_t(uint32_t(i) ^ (1u << b)); }
static bool flip(bool v, unsigned) { return !v; }
struct Noise { uint64_t s; uint32_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return uint32_t((z ^ (z >> 31)) >> 16); } };
static float rough(Noise& c, float) { uint32_t u = c.next(); if ((u & 0x7f000000u) == 0x7f000000u || (u & 0x7f000000u) == 0) u ^= 0x3f000000u; return fromBits(u); }
static int32_t rough(Noise& c, int32_t) { return int32_t(c.next()); }
static bool rough(Noise& c, bool) { return c.next() & 1; }
template<class V> void bits(Case& c) {
    const unsigned N = Tr<V>::N; unsigned i = unsigned(c.below(N)), b = unsigned(c.below(32)); c.note("component", "%u", i); c.note("bit", "%u", b); c.payload(i + 1); c.payload(b + 100);
    bool moved = false; int tries = 160; Noise rnd{c.below(1ull << 32)}; c.note("surroundings", "%llu", (unsigned long long)rnd.s);
    for (int k = 0; k < tries && !moved; ++k) {
        V a; for (unsigned j = 0; j < N; ++j) put(a, j, rough(rnd, typename Tr<V>::T()));
        V m = a; put(m, i, flip(at(a, i), b)); if (!(m != a)) continue; moved = zcm::hash(m) != zcm::hash(a); }
    CHECK(moved, "bit %u of component %u never changes the hash of %s", b, i, Tr<V>::name());
}
// and it does so for components of every magnitude: of one exponent (subnormals, for one) or with one and the same upper half
static float within(Noise& c, float, uint32_t cls) { uint32_t e = cls % 4 == 0 ? 0 : cls % 4 == 1 ? 254 : (cls >> 8) % 255; return fromBits((cls & 0x80000000u) | (e << 23) | (c.next() & 0x7fffffu)); }
static int32_t within(Noise& c, int32_t, uint32_t cls) { uint32_t h = cls % 4 == 0 ? 0 : cls % 4 == 1 ? 0xffff0000u : cls & 0xffff0000u; return int32_t(h | (c.next() & 0xffffu)); }
template<class V> void magnitude(Case& c) {
    const unsigned N = Tr<V>::N; typedef typename Tr<V>::T T; unsigned i = unsigned(c.below(N)), b = unsigned(c.below(T(0.5) == 0 ? 16 : 23)); uint32_t cls = uint32_t(c.below(1ull << 32));
    c.note("component", "%u", i); c.note("bit", "%u", b); c.note("class", "%x", unsigned(cls)); c.payload(i + 1); c.payload(b + 100); c.payload(cls);
    bool moved = false; Noise rnd{c.below(1ull << 32)}; c.note("surroundings", "%llu", (unsigned long long)rnd.s);
    for (int k = 0; k < 160 && !moved; ++k) {
        V a; for (unsigned j = 0; j < N; ++j) put(a, j, k & 1 ? within(rnd, T(), cls) : rough(rnd, T())); put(a, i, within(rnd, T(), cls));
        V m = a; put(m, i, flip(at(a, i), b)); moved = m != a && zcm::hash(m) != zcm::hash(a); }
    CHECK(moved, "bit %u of component %u never changes the hash of %s for components like %s", b, i, Tr<V>::name(), show(vec2(float(within(rnd, T(), cls)))).c_str());
}
#define MAGNITUDE(V) LAW(magnitude_##V) { magnitude<zcm::V>(c); }
MAGNITUDE(vec2) MAGNITUDE(vec3) MAGNITUDE(vec4) MAGNITUDE(quat) MAGNITUDE(ivec2) MAGNITUDE(ivec3) MAGNITUDE(ivec4) MAGNITUDE(mat2) MAGNITUDE(mat3) MAGNITUDE(mat4)
#define BITS(V) LAW(bits_##V) { bits<zcm::V>(c); }
BITS(vec2) BITS(vec3) BITS(vec4) BITS(quat) BITS(ivec2) BITS(ivec3) BITS(ivec4) BITS(bvec2) BITS(bvec3) BITS(bvec4) BITS(mat2) BITS(mat3) BITS(mat4)
LAW(vec2) { hashes<zcm::vec2>(c); } LAW(vec3) { hashes<zcm::vec3>(c); } LAW(vec4) { hashes<zcm::vec4>(c); } LAW(quat) { hashes<zcm::quat>(c); }
LAW(ivec2) { hashes<zcm::ivec2>(c); } LAW(ivec3) { hashes<zcm::ivec3>(c); } LAW(ivec4) { hashes<zcm::ivec4>(c); }
LAW(bvec2) { hashes<zcm::bvec2>(c); } LAW(bvec3) { hashes<zcm::bvec3>(c); } LAW(bvec4) { hashes<zcm::bvec4>(c); }
LAW(mat2) { hashes<zcm::mat2>(c); } LAW(mat3) { hashes<zcm::mat3>(c); } LAW(mat4) { hashes<zcm::mat4>(c); }
LAW(scalars) {
    float f = anyFinite(c, "f"); CHECK(zcm::hash(f) == zcm::hash(twin(f, true)), "hash(%a) depends on the sign of zero", f);
    int32_t i = anyInt(c, "i"); CHECK(zcm::hash(int(i)) == zcm::hash(int(i)), "hash(int)"); CHECK(zcm::hash(true) != zcm::hash(false), "hash(bool)");
    float g = f; bool m = false; for (int k = 0; k < 24 && !m; ++k) m = zcm::hash(other(c, g)) != zcm::hash(f); CHECK(m, "hash(float) constant around %a", f);
    m = false; Noise rnd{c.below(1ull << 32)}; uint32_t cls = uint32_t(c.below(1ull << 32)); c.note("class", "%x", unsigned(cls)); unsigned b = unsigned(c.below(16));
    for (int k = 0; k < 24 && !m; ++k) { g = within(rnd, 0.0f, cls); m = zcm::hash(flip(g, b)) != zcm::hash(g); } CHECK(m, "bit %u of floats like %a never changes their hash", b, g);
    m = false; for (int k = 0; k < 24 && !m; ++k) { int32_t x = within(rnd, 0, cls); m = zcm::hash(flip(x, b)) != zcm::hash(x); } CHECK(m, "bit %u of integers like %d never changes their hash", b, within(rnd, 0, cls));
    m = false; for (int k = 0; k < 24 && !m; ++k) m = zcm::hash(other(c, i)) != zcm::hash(i); CHECK(m, "hash(int) constant around %d", i);
    m = false; for (int k = 0; k < 24 && !m; ++k) m = zcm::hash(unsigned(other(c, i))) != zcm::hash(unsigned(i)); CHECK(m, "hash(unsigned) constant around %d", i);
}
// histories over std::unordered_map against an ordered model keyed by the component values (-0 is 0)
template<class V> void container(Case& c) {
    using A = Arr<V>; std::map<A, int> model; std::unordered_map<V, int> um; std::unordered_set<V> us; std::vector<A> seen; int ops = int(c.range(1, 24));
    for (int k = 0; k < ops; ++k) {
        A a; if (!seen.empty() && c.below(3)) { a = seen[c.below(seen.size())]; for (auto& x : a) x = twin(x, c.coin()); if (c.chance(4)) a[c.below(a.size())] = eltOf<typename Tr<V>::T>(c); } else { a = arr(val<V>(c, "key")); }
        seen.push_back(a); V v = mk<V>(a); A key = a; for (auto& x : key) if (x == 0) x = 0;
        switch (c.below(4)) {
        case 0: c.say("insert"); { bool n = um.emplace(v, k).second; eqInt(c, n, model.emplace(key, k).second, "insert"); us.insert(v); break; }
        case 1: c.say("assign"); um[v] = k; model[key] = k; us.insert(v); break;
        case 2: c.say("erase"); eqInt(c, int64_t(um.erase(v)), int64_t(model.erase(key)), "erase"); us.erase(v); break;
        default: { auto it = um.find(v); auto im = model.find(key); CHECK((it == um.end()) == (im == model.end()), "find disagrees with the model on %s", show(v).c_str()); if (im != model.end()) eqInt(c, it->second, im->second, "value found"); }
        }
        eqInt(c, int64_t(um.size()), int64_t(model.size()), "size"); eqInt(c, int64_t(us.size()), int64_t(model.size()), "set size");
    }
    for (auto& kv : model) { auto it = um.find(mk<V>(kv.first)); CHECK(it != um.end() && it->second == kv.second, "a stored key is not found: %s", show(mk<V>(kv.first)).c_str()); }
}
LAW(mapVec2) { container<zcm::vec2>(c); } LAW(mapVec3) { container<zcm::vec3>(c); } LAW(mapVec4) { container<zcm::vec4>(c); } LAW(mapQuat) { container<zcm::quat>(c); }
LAW(mapIvec2) { container<zcm::ivec2>(c); } LAW(mapIvec3) { container<zcm::ivec3>(c); } LAW(mapIvec4) { container<zcm::ivec4>(c); } LAW(mapBvec3) { container<zcm::bvec3>(c); }
LAW(mapMat2) { container<zcm::mat2>(c); } LAW(mapMat3) { container<zcm::mat3>(c); } LAW(mapMat4) { container<zcm::mat4>(c); }
