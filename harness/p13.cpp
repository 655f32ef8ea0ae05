// P13: dot, length, distance, their squares, cross and normalize compute the geometric quantities of their operands.
#include "gen.hpp"
using namespace pbt;
template<class V> double absdot(const V& a, const V& b) { return dotd(absd(dbl(a)), absd(dbl(b))); }
template<class V> V related(Case& c, const V& a, const char* n) {     // often parallel, equal, close or perpendicular-ish to a
    V b = vScaled<V>(c, 30, n); const unsigned N = Tr<V>::N;
    switch (c.below(6)) {
    case 0: b = a; break;
    case 1: { float s = finite(c, 3, "k"); for (unsigned i = 0; i < N; ++i) put(b, i, at(a, i) * s); break; }
    case 2: b = a; put(b, unsigned(c.below(N)), finite(c, 6, "bk")); break;
    case 3: for (unsigned i = 0; i < N; ++i) put(b, i, std::nextafterf(at(a, i), 1.0f)); break;
    default: return b;
    }
    return shown(c, n, b);
}
template<class V> void dots(Case& c) {
    V a = vScaled<V>(c, 30, "a"), b = related(c, a, "b"); double tol = (Tr<V>::N + 1) * EPS * absdot(a, b) + 1e-42;
    near(c, zcm::dot(a, b), dotd(dbl(a), dbl(b)), tol, "dot"); near(c, zcm::dot(b, a), dotd(dbl(a), dbl(b)), tol, "dot swapped");
    double l2 = dotd(dbl(a), dbl(a)); near(c, zcm::length2(a), l2, 8 * EPS * l2 + 1e-42, "length2"); near(c, zcm::length(a), std::sqrt(l2), 8 * EPS * std::sqrt(l2) + 1e-22, "length");
    CHECK(zcm::length(a) >= 0 && zcm::length2(a) >= 0, "negative length of %s", show(a).c_str());
}
template<class V> void dists(Case& c) {
    V a = vScaled<V>(c, 30, "a"), b = related(c, a, "b"); double d = dist(dbl(a), dbl(b));
    near(c, zcm::distance(a, b), d, 10 * EPS * d + 1e-22, "distance"); near(c, zcm::distance(b, a), d, 10 * EPS * d + 1e-22, "distance swapped");
    near(c, zcm::distance2(a, b), d * d, 10 * EPS * d * d + 1e-42, "distance2");
    eqVal(c, zcm::distance(a, a), 0.0f, "distance to itself"); eqVal(c, zcm::distance2(a, a), 0.0f, "distance2 to itself");
}
template<class V> void norms(Case& c) {
    V a = vScaled<V>(c, 30, "a"); double l = norm(dbl(a)); c.require(l > 1e-12);
    V n = zcm::normalize(a); for (unsigned i = 0; i < Tr<V>::N; ++i) near(c, at(n, i), double(at(a, i)) / l, 16 * EPS * std::fabs(double(at(a, i))) / l + 1e-38, "normalize", int(i));
    near(c, norm(dbl(n)), 1, 16 * EPS, "length of a normalised vector");
}
LAW_W(dot2, 2) { dots<vec2>(c); } LAW_W(dot3, 2) { dots<vec3>(c); } LAW_W(dot4, 2) { dots<vec4>(c); } LAW_W(dotQuat, 2) { dots<quat>(c); }
LAW_W(dist2, 2) { dists<vec2>(c); } LAW_W(dist3, 2) { dists<vec3>(c); } LAW_W(dist4, 2) { dists<vec4>(c); }
LAW_W(norm2, 2) { norms<vec2>(c); } LAW_W(norm3, 2) { norms<vec3>(c); } LAW_W(norm4, 2) { norms<vec4>(c); } LAW_W(normQuat, 2) { norms<quat>(c); }
LAW_W(scalars, 2) {
    float a = finite(c, 50, "a"), b = c.chance(5) ? a : finite(c, 50, "b"); double d = double(a) - b;
    eqVal(c, zcm::dot(a, b), a * b, "dot"); eqVal(c, zcm::length(a), std::fabs(a), "length"); eqVal(c, zcm::length2(a), a * a, "length2");
    near(c, zcm::distance(a, b), std::fabs(d), EPS * std::fabs(d) * 2, "distance"); near(c, zcm::distance2(a, b), d * d, 6 * EPS * d * d + 1e-42, "distance2");
}
LAW_W(cross, 4) {
    vec3 a = vScaled<vec3>(c, 30, "a"), b = related(c, a, "b"), r = zcm::cross(a, b), s = zcm::cross(b, a); D3 w = crossd(dbl(a), dbl(b)), A = absd(dbl(a)), B = absd(dbl(b));
    for (unsigned i = 0; i < 3; ++i) { unsigned j = (i + 1) % 3, k = (i + 2) % 3; double tol = 3 * EPS * (A[j] * B[k] + A[k] * B[j]) + 1e-42;
        near(c, at(r, i), w[i], tol, "cross", int(i)); near(c, at(s, i), -w[i], tol, "cross swapped", int(i)); }
}
