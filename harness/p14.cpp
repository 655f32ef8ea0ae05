// P14: reflect, refract and faceforward.
#include "gen.hpp"
using namespace pbt;
template<class V> void reflects(Case& c) {
    V n = unitV<V>(c, "N"), v = vScaled<V>(c, 20, "I"); if (c.chance(5)) { v = n; shown(c, "I", v); }
    auto I = dbl(v), N = dbl(n); double k = dotd(N, I), tol = 20 * EPS * norm(I) + 1e-38;
    V r = zcm::reflect(v, n), b = zcm::reflect(r, n);
    for (unsigned i = 0; i < Tr<V>::N; ++i) { near(c, at(r, i), I[i] - 2 * k * N[i], tol, "reflect", int(i)); near(c, at(b, i), I[i], 3 * tol, "reflect twice", int(i)); }
    near(c, norm(dbl(r)), norm(I), 2 * tol, "length after reflect"); near(c, dotd(N, dbl(r)), -k, 2 * tol, "normal component after reflect");
}
template<class V> void refracts(Case& c) {
    V n = unitV<V>(c, "N"), v = unitV<V>(c, "I"); if (c.coin()) { if (dotd(dbl(n), dbl(v)) > 0) { for (unsigned i = 0; i < Tr<V>::N; ++i) put(v, i, -at(v, i)); shown(c, "I", v); } }
    float eta = c.pick({1.0f, 1.5f, 0.66666669f, 0.75f, 1.3333334f, 2.0f, 0.5f, 1.0f}); if (c.coin()) eta = 0.1f + float(c.below(3000)) / 1000.0f; if (c.chance(5)) eta = std::fabs(finite(c, c.pick({4, 12}), "eta")); c.note("eta", "%.9g", eta);
    auto I = dbl(v), N = dbl(n); double d = dotd(N, I), k = 1 - double(eta) * eta * (1 - d * d), tol = 20 * EPS * (1 + double(eta) * eta);
    V r = zcm::refract(v, n, eta); c.interesting = std::fabs(k) > tol;
    bool zero = true; for (unsigned i = 0; i < Tr<V>::N; ++i) zero = zero && at(r, i) == 0;
    if (k < -tol) { CHECK(zero, "total internal reflection (k = %g) must give the zero vector, got %s", k, show(r).c_str()); return; }
    if (k < tol && zero) return;
    double s = k > 0 ? std::sqrt(k) : 0, t = tol + (s > 0 ? std::min(std::sqrt(tol) * 2, tol / s) : 2 * std::sqrt(tol));
    for (unsigned i = 0; i < Tr<V>::N; ++i) near(c, at(r, i), eta * I[i] - (eta * d + s) * N[i], t, "refract", int(i));
    if (k > 1e-2) { near(c, norm(dbl(r)), 1, 2 * t, "refracted direction is a unit vector"); if (eta == 1.0f && d < -1e-2) for (unsigned i = 0; i < Tr<V>::N; ++i) near(c, at(r, i), I[i], 4 * t / std::fabs(d), "eta 1 leaves the direction alone", int(i)); }
}
template<class V> void faces(Case& c) {
    V n = vAnyFinite<V>(c, "N"), v, ref;
    bool small = c.coin();
    if (small) { bool vb = c.verbose; c.verbose = false; v = vecBy<V>(c, "I", [&] { return float(c.range(-4, 4)); }); ref = vecBy<V>(c, "Nref", [&] { return float(c.range(-4, 4)); }); c.verbose = vb; shown(c, "I", v); shown(c, "Nref", ref); }
    else { v = vScaled<V>(c, 20, "I"); ref = vScaled<V>(c, 20, "Nref"); }
    double d = dotd(dbl(ref), dbl(v)), tol = small ? 0 : 8 * EPS * dotd(absd(dbl(ref)), absd(dbl(v))) + 1e-30;
    V r = zcm::faceforward(n, v, ref); bool keep = true, flip = true;
    for (unsigned i = 0; i < Tr<V>::N; ++i) { keep = keep && at(r, i) == at(n, i); flip = flip && at(r, i) == -at(n, i); }
    if (d < -tol) CHECK(keep, "dot(Nref, I) = %g < 0: N expected, got %s", d, show(r).c_str());
    else if (d >= tol) CHECK(flip, "dot(Nref, I) = %g >= 0: -N expected, got %s", d, show(r).c_str());
    else CHECK(keep || flip, "neither N nor -N: %s", show(r).c_str());
}
LAW_W(reflect2, 2) { reflects<vec2>(c); } LAW_W(reflect3, 2) { reflects<vec3>(c); } LAW_W(reflect4, 2) { reflects<vec4>(c); }
LAW_W(refract2, 3) { refracts<vec2>(c); } LAW_W(refract3, 3) { refracts<vec3>(c); } LAW_W(refract4, 3) { refracts<vec4>(c); }
LAW_W(face2, 2) { faces<vec2>(c); } LAW_W(face3, 2) { faces<vec3>(c); } LAW_W(face4, 2) { faces<vec4>(c); }
LAW(scalars) {
    float I = finite(c, c.pick({3, 24}), "I"), N = c.coin() ? 1.0f : -1.0f, eta = c.chance(3) ? std::fabs(finite(c, 12, "eta")) : 0.1f + float(c.below(3000)) / 1000.0f, R = finite(c, c.pick({3, 24}), "Nref"), M = finite(c, 20, "M"); c.note("eta", "%.9g", eta);
    near(c, zcm::reflect(I, N), -double(I), 4 * EPS * std::fabs(I), "reflect(float)");
    float J = c.coin() ? 1.0f : -1.0f; double d = double(N) * J; near(c, zcm::refract(J, N, eta), eta * double(J) - (eta * d + 1) * N, 8 * EPS * (1 + eta), "refract(float)");
    float K = float(c.below(1001)) / 1000.0f, e2 = eta; double k = 1 - double(e2) * e2 * (1 - double(K) * K); if (k < -1e-5 * (1 + double(e2) * e2)) eqVal(c, zcm::refract(K, N, e2), 0.0f, "refract(float), k < 0"); else if (k > 1e-2 * (1 + double(e2) * e2)) near(c, zcm::refract(K, N, e2), double(e2) * K - (double(e2) * K * N + std::sqrt(k)) * N, 1e-4 * (1 + double(e2)), "refract(float)");
    eqVal(c, zcm::faceforward(M, I, R), double(R) * I < 0 ? M : -M, "faceforward(float)");
}
// grazing incidence with eta 1: k is exactly 0, which is not total reflection; every operation is exact on these operands
template<class V> void grazing(Case& c) {
    constexpr unsigned N = Tr<V>::N; Arr<V> n{}, v{}; float s = c.coin() ? 1.0f : -1.0f, t = c.coin() ? 1.0f : -1.0f; unsigned i = unsigned(c.below(N)), j = (i + 1 + unsigned(c.below(N - 1))) % N; n[i] = s; v[j] = t;
    if (N == 4 && c.coin()) { static const float h[3][4] = {{1, 1, -1, -1}, {1, -1, 1, -1}, {1, -1, -1, 1}}; unsigned a = unsigned(c.below(3)); for (unsigned k = 0; k < N; ++k) { n[k] = 0.5f * s; v[k] = 0.5f * t * h[a][k]; } }
    float eta = c.coin() ? 1.0f : -1.0f; c.note("eta", "%g", double(eta)); c.payload(c.below(1u << 20)); V nn = shown(c, "N", mk<V>(n)), vv = shown(c, "I", mk<V>(v)), r = zcm::refract(vv, nn, eta);
    for (unsigned k = 0; k < N; ++k) { ++c.oracle; if (at(r, k) != eta * v[k]) throw Fail{fmt("refract at grazing incidence [%u]: got %.9g, expected %.9g", k, double(at(r, k)), double(eta * v[k]))}; }
    eqVal(c, zcm::refract(0.0f, s, eta), 0.0f, "refract(float) of 0");
}
LAW(grazing2) { grazing<vec2>(c); } LAW(grazing3) { grazing<vec3>(c); } LAW(grazing4) { grazing<vec4>(c); }
