// Generators and helpers for zcm's types.  Values move in and out of the types
// with memcpy, so that no law depends on the constructors or accessors it does not test.
#pragma once
#include <algorithm>
#include "pbt.hpp"
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

namespace pbt {
using zcm::vec2; using zcm::vec3; using zcm::vec4; using zcm::ivec2; using zcm::ivec3; using zcm::ivec4;
using zcm::bvec2; using zcm::bvec3; using zcm::bvec4; using zcm::mat2; using zcm::mat3; using zcm::mat4; using zcm::quat;

template<class V> struct Tr;
#define PBT_TR(V, E, n, B, I) template<> struct Tr<V> { using T = E; enum { N = n }; using BV = B; using IV = I; static const char* name() { return #V; } };
PBT_TR(vec2, float, 2, bvec2, ivec2) PBT_TR(vec3, float, 3, bvec3, ivec3) PBT_TR(vec4, float, 4, bvec4, ivec4)
PBT_TR(ivec2, int32_t, 2, bvec2, ivec2) PBT_TR(ivec3, int32_t, 3, bvec3, ivec3) PBT_TR(ivec4, int32_t, 4, bvec4, ivec4)
PBT_TR(bvec2, bool, 2, bvec2, ivec2) PBT_TR(bvec3, bool, 3, bvec3, ivec3) PBT_TR(bvec4, bool, 4, bvec4, ivec4)
PBT_TR(quat, float, 4, bvec4, ivec4)
PBT_TR(mat2, float, 4, bvec2, ivec2) PBT_TR(mat3, float, 9, bvec3, ivec3) PBT_TR(mat4, float, 16, bvec4, ivec4)

template<class V> using Arr = std::array<typename Tr<V>::T, Tr<V>::N>;
template<class V> Arr<V> arr(const V& v) { Arr<V> a; static_assert(sizeof(a) == sizeof(V), "layout"); memcpy((void*)a.data(), (const void*)&v, sizeof a); return a; }
template<class V> V mk(const Arr<V>& a) { V v; memcpy((void*)&v, (const void*)a.data(), sizeof a); return v; }
template<class V> auto at(const V& v, unsigned i) -> typename Tr<V>::T { typename Tr<V>::T t; memcpy((void*)&t, (const char*)(const void*)&v + i * sizeof t, sizeof t); return t; }
template<class V> void put(V& v, unsigned i, typename Tr<V>::T t) { memcpy((char*)(void*)&v + i * sizeof t, (const void*)&t, sizeof t); }

using D3 = std::array<double, 3>;
template<size_t N> using DA = std::array<double, N>;
template<class V> DA<Tr<V>::N> dbl(const V& v) { DA<Tr<V>::N> d; auto a = arr(v); for (unsigned i = 0; i < d.size(); ++i) d[i] = a[i]; return d; }

constexpr double EPS = 5.9604644775390625e-8;   // half an ulp of 1

template<class V> std::string show(const V& v) {
    std::string s = std::string(Tr<V>::name()) + "("; auto a = arr(v);
    for (unsigned i = 0; i < a.size(); ++i) s += (i ? "," : "") + fmt("%.9g", double(a[i]));
    return s + ")";
}
template<class V> V shown(Case& c, const char* name, const V& v) { if (c.verbose) c.say(std::string(name) + "=" + show(v)); return v; }

inline float minusOf(float f) { return -f; }
inline int32_t minusOf(int32_t i) { return int32_t(0u - uint32_t(i)); }
// components produced by g, with whole-vector shapes mixed in
template<class T> T negOf(T x) { return x > 0 ? T(-x) : x; }
template<class V, class G> V vecBy(Case& c, const char* name, G g, bool signs = false) {     // signs: the sign of a component may be changed
    Arr<V> a; bool vb = c.verbose; c.verbose = false; constexpr unsigned N = Tr<V>::N;
    switch (c.below(signs ? 15 : 12)) {
    case 14: { auto m = c.coin() ? g() : typename Tr<V>::T(0); for (auto& x : a) { bool k = c.coin(); x = k ? minusOf(m) : m; c.payload(k + 2 * unsigned(&x - a.data())); } break; }             // one magnitude (or zero), both signs
    case 12: for (auto& x : a) x = negOf(g()); break;                                        // all negative
    case 13: for (auto& x : a) x = g(); if (a[0] != 0 && !(a[0] < 0 && a[0] == negOf(a[0]) && double(a[0]) == -2147483648.0)) a[1] = typename Tr<V>::T(-a[0]); break;      // opposite
    case 0: { a.fill(0); unsigned i = unsigned(c.below(N)); a[i] = g(); break; }             // one component
    case 1: { auto x = g(); a.fill(x); break; }                                              // all equal
    case 2: { for (auto& x : a) x = g(); a[c.below(N)] = 0; break; }                         // one zero
    case 3: { auto x = g(), y = g(); for (auto& e : a) e = c.coin() ? x : y; break; }        // two values
    default: for (auto& x : a) x = g();
    }
    c.verbose = vb; return shown(c, name, mk<V>(a));
}
// another value with a relation to v that a careless comparison or hash might take for equality: negated, rearranged, one bit or one step away, the same sum, ...
inline float bitFlip(float f, unsigned b) { return fromBits(bitsOf(f) ^ (1u << b)); }
inline int32_t bitFlip(int32_t i, unsigned b) { return int32_t(uint32_t(i) ^ (1u << b)); }
inline float moved(float f, int k) { return f + float(k); }
inline int32_t moved(int32_t i, int k) { return int32_t(uint32_t(i) + uint32_t(k)); }
template<class V> V cousin(Case& c, const char* name, const V& v) {
    constexpr unsigned N = Tr<V>::N; Arr<V> a = arr(v); unsigned i = unsigned(c.below(N)), j = unsigned(c.below(N)), b = unsigned(c.below(32)), k = unsigned(c.below(11)); c.payload(k + 1000); c.payload(i * 16 + j);
    switch (k) {
    case 0: for (auto& x : a) x = minusOf(x); break;
    case 1: std::swap(a[i], a[j]); break;
    case 2: std::rotate(a.begin(), a.begin() + i, a.end()); break;
    case 3: std::reverse(a.begin(), a.end()); break;
    case 4: a[i] = bitFlip(a[i], b); break;
    case 5: a[i] = bitFlip(a[i], b); if (i != j) a[j] = bitFlip(a[j], b); break;
    case 6: a[i] = bitFlip(a[i], 0); break;
    case 7: a[i] = a[j]; break;
    case 8: a[i] = minusOf(a[i]); if (c.coin()) a[j] = minusOf(a[j]); break;
    case 9: a[i] = moved(a[i], 1); if (i != j) a[j] = moved(a[j], -1); break;
    case 10: for (auto& x : a) if (c.coin()) x = minusOf(x); break;
    }
    return shown(c, name, mk<V>(a));
}
template<class V> V vAny(Case& c, const char* n = "v") { return vecBy<V>(c, n, [&] { return anyFloat(c); }, true); }
template<class V> V vAnyFinite(Case& c, const char* n = "v") { return vecBy<V>(c, n, [&] { return anyFinite(c); }, true); }
template<class V> V vFin(Case& c, int emax, const char* n = "v") { return vecBy<V>(c, n, [&] { return finite(c, emax); }, true); }
template<class V> V vInt(Case& c, const char* n = "iv") { return vecBy<V>(c, n, [&] { return anyInt(c); }, true); }
template<class V> V vBool(Case& c, const char* n = "bv") { Arr<V> a; for (auto& x : a) { x = c.coin(); c.payload(x + 2 * (&x - a.data())); } return shown(c, n, mk<V>(a)); }

// vector of moderate components times one power of two: relative sizes stay comparable
template<class V> V vScaled(Case& c, int smax, const char* n = "v") {
    float s = 1; if (c.below(3) == 2) s = std::ldexp(1.0f, int(c.range(0, 2 * smax)) - smax);
    bool vb = c.verbose; c.verbose = false; V v = vFin<V>(c, 6, n); c.verbose = vb;
    Arr<V> a = arr(v); for (auto& x : a) x *= s;
    return shown(c, n, mk<V>(a));
}

template<size_t N> double norm(const DA<N>& a) { double s = 0; for (double x : a) s += x * x; return std::sqrt(s); }
template<size_t N> double dotd(const DA<N>& a, const DA<N>& b) { double s = 0; for (size_t i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
inline D3 crossd(const D3& a, const D3& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
template<size_t N> DA<N> scaled(DA<N> a, double s) { for (auto& x : a) x *= s; return a; }
template<size_t N> DA<N> plus(DA<N> a, const DA<N>& b) { for (size_t i = 0; i < N; ++i) a[i] += b[i]; return a; }
template<size_t N> DA<N> minus(DA<N> a, const DA<N>& b) { for (size_t i = 0; i < N; ++i) a[i] -= b[i]; return a; }
template<size_t N> double dist(const DA<N>& a, const DA<N>& b) { return norm(minus(a, b)); }

// non-zero direction normalised in double and rounded: | |v| - 1 | <= 1e-7
template<class V> V unitV(Case& c, const char* name = "n") {
    Arr<V> a; bool vb = c.verbose; c.verbose = false; constexpr unsigned N = Tr<V>::N;
    switch (c.below(9)) {
    case 8: for (auto& x : a) x = negOf(finite(c, 3)); break;                                 // all negative
    case 0: { a.fill(0); unsigned i = unsigned(c.below(N)); a[i] = c.coin() ? -1.0f : 1.0f; c.payload(bitsOf(a[i]) + i); break; }
    case 1: { a.fill(0); unsigned i = unsigned(c.below(N)), j = (i + 1 + unsigned(c.below(N - 1))) % N; a[i] = finite(c, 3); a[j] = finite(c, 3); break; }   // in a coordinate plane
    case 2: { for (auto& x : a) x = c.coin() ? -1.0f : 1.0f; for (unsigned i = 0; i < N; ++i) c.payload(bitsOf(a[i]) + i); break; }      // diagonal
    case 3: { unsigned i = unsigned(c.below(N)); for (auto& x : a) x = finite(c, 3) * std::ldexp(1.0f, -int(c.range(1, 20))); a[i] = c.coin() ? -1.0f : 1.0f; break; }  // near an axis
    default: for (auto& x : a) x = finite(c, 3);
    }
    DA<N> d; double n = 0; for (unsigned i = 0; i < N; ++i) { d[i] = a[i]; n += d[i] * d[i]; }
    n = std::sqrt(n);
    if (n == 0) { a.fill(0); a[N - 1] = 1; } else for (unsigned i = 0; i < N; ++i) a[i] = float(d[i] / n);
    for (float x : a) c.pool.push_back(x);
    c.verbose = vb; return shown(c, name, mk<V>(a));
}
inline quat unitQ(Case& c, const char* name = "q") { return unitV<quat>(c, name); }

// quaternion helpers in double, components x,y,z,w
using DQ = DA<4>;
inline DQ qmul(const DQ& a, const DQ& b) {
    return {{a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
             a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]}};
}
inline DQ qconj(const DQ& a) { return {{-a[0], -a[1], -a[2], a[3]}}; }
inline D3 qrot(const DQ& q, const D3& v) {   // q v q* for unit q, exact sandwich otherwise scaled by |q|^2
    DQ r = qmul(qmul(q, DQ{{v[0], v[1], v[2], 0}}), qconj(q)); return {{r[0], r[1], r[2]}};
}
// matrices: column-major double, element (col, row) at col * n + row
template<int n> using DM = DA<n * n>;
template<int n> DM<n> mmul(const DM<n>& a, const DM<n>& b) { DM<n> r; for (int c = 0; c < n; ++c) for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < n; ++k) s += a[k * n + i] * b[c * n + k]; r[c * n + i] = s; } return r; }
template<int n> DM<n> mtrans(const DM<n>& a) { DM<n> r; for (int c = 0; c < n; ++c) for (int i = 0; i < n; ++i) r[i * n + c] = a[c * n + i]; return r; }
template<int n> DM<n> mident() { DM<n> r; r.fill(0); for (int i = 0; i < n; ++i) r[i * n + i] = 1; return r; }
template<size_t N> DA<N> absd(DA<N> a) { for (auto& x : a) x = std::fabs(x); return a; }
inline DM<3> qmat(const DQ& q) { DM<3> m; for (int c = 0; c < 3; ++c) { D3 e{{0, 0, 0}}; e[c] = 1; D3 r = qrot(q, e); for (int i = 0; i < 3; ++i) m[c * 3 + i] = r[i]; } return m; }
inline DM<3> rodrigues(double a, D3 ax) {
    double n = norm(ax); ax = scaled(ax, 1 / n); DM<3> m;
    for (int c = 0; c < 3; ++c) { D3 e{{0, 0, 0}}; e[c] = 1; D3 k = crossd(ax, e);
        for (int i = 0; i < 3; ++i) m[c * 3 + i] = e[i] * std::cos(a) + k[i] * std::sin(a) + ax[i] * ax[c] * (1 - std::cos(a)); }
    return m;
}
template<int n> struct MatOf; template<> struct MatOf<2> { using M = mat2; using V = vec2; }; template<> struct MatOf<3> { using M = mat3; using V = vec3; }; template<> struct MatOf<4> { using M = mat4; using V = vec4; };

// matrices with every shape laws care about; entries of magnitude about 2^-6..2^7 unless zero
template<int n> typename MatOf<n>::M matGen(Case& c, const char* name = "M") {
    using M = typename MatOf<n>::M; Arr<M> a; bool vb = c.verbose; c.verbose = false;
    a.fill(0); auto f = [&] { return finite(c, 5); };
    const unsigned shape = unsigned(c.below(17)); switch (shape) {
    case 0: for (int i = 0; i < n; ++i) a[i * n + i] = f(); break;                                              // diagonal
    case 1: { int p[4]; for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[c.below(i + 1)]);
              for (int i = 0; i < n; ++i) a[i * n + p[i]] = c.coin() ? f() : (c.coin() ? -1.0f : 1.0f); break; }  // permutation-like
    case 2: for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) a[i * n + j] = f(); break;                 // triangular
    case 3: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) a[i * n + j] = f(); break;
    case 4: for (auto& x : a) x = float(c.range(0, 8)) - 4.0f; for (auto x : a) c.payload(bitsOf(x)); break;    // small integers
    case 5: for (auto& x : a) x = c.coin() ? f() : 0.0f; break;                                                 // sparse
    case 6: for (auto& x : a) x = -std::fabs(f()); break;                                                       // all negative
    case 7: for (auto& x : a) x = f(); a[0] = a[n * n - 1]; a[1] = -a[0]; break;
    case 11: for (int i = 0; i < n; ++i) { auto u = arr(unitV<typename MatOf<n>::V>(c)); std::copy(u.begin(), u.end(), a.begin() + i * n); } break;      // unit columns, not perpendicular
    case 12: case 13: case 14: {                                                                                // affine: unit columns, a rotation, anything
        const int m = n - 1 < 3 ? n - 1 : 3; for (int i = 0; i < n; ++i) a[i * n + i] = 1;
        if (shape == 14 || m < 3) { for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) a[i * n + j] = f(); }
        else {
            DA<3> x = dbl(unitV<vec3>(c)), y = dbl(unitV<vec3>(c)), z = dbl(unitV<vec3>(c));
            if (shape == 13) { z = crossd(x, y); double l = norm(z); if (l < 1e-3) { x = {{0, 1, 0}}; y = {{-1, 0, 0}}; z = {{0, 0, 1}}; } else { z = scaled(z, 1 / l); y = crossd(z, x); } double k = c.chance(3) ? -1 : 1, u = c.coin() ? 1 : std::fabs(f()) + 0.0625; x = scaled(x, k * u); y = scaled(y, u); z = scaled(z, u); }
            for (int j = 0; j < 3; ++j) { a[j] = float(x[j]); a[n + j] = float(y[j]); a[2 * n + j] = float(z[j]); }
        }
        if (c.coin()) for (int j = 0; j < m; ++j) a[m * n + j] = c.chance(3) ? 0.0f : f();
        break; }
    case 15: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { a[i * n + j] = f(); a[j * n + i] = a[i * n + j]; } break;                             // symmetric
    case 16: for (int i = 0; i < n; ++i) { a[i * n + i] = c.coin() ? f() : 0.0f; for (int j = i + 1; j < n; ++j) { a[i * n + j] = f(); a[j * n + i] = -a[i * n + j]; } } break;   // skew-symmetric
    default: for (auto& x : a) x = f();
    }
    if (shape < 11 && c.chance(4)) { float s = std::ldexp(1.0f, int(c.range(-20, 20))); for (auto& x : a) x *= s; }             // tiny and huge as a whole
    c.verbose = vb; return shown(c, name, mk<M>(a));
}
} // namespace pbt

namespace pbt {
// distance in units in the last place; huge when one side is not a number and the other is
inline int64_t ordered(float f) { int32_t i; memcpy(&i, &f, 4); return i < 0 ? int64_t(INT32_MIN) - i : int64_t(i); }
inline int64_t ulps(float a, float b) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b) ? 0 : INT64_MAX;
    int64_t d = ordered(a) - ordered(b); return d < 0 ? -d : d;
}
// got agrees with the double reference to n units in the last place (NaN with NaN, infinities count as the next value)
inline void eqUlp(Case& c, float got, double want, int n, const char* what, int i = -1) {
    ++c.oracle;
    float w = float(want);
    if (ulps(got, w) > n) throw Fail{fmt("%s[%d]: got %.9g (%a) expected %.9g, %lld ulp apart, %d allowed", what, i, got, got, want, (long long)ulps(got, w), n)};
}
} // namespace pbt
