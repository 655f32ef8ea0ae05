// P25: decompose_orthogonal inverts translation * rotation * scale.
#include "mat.hpp"
using namespace pbt;
LAW(recompose) {
    quat q = unitQ(c, "q"); if (c.chance(6)) { unsigned i = unsigned(c.below(4)), j = (i + 1 + unsigned(c.below(3))) % 4; for (unsigned k = 0; k < 4; ++k) put(q, k, k == i || k == j ? (c.coin() ? 0.70710678f : -0.70710678f) : 0.0f); shown(c, "q", q); }
    if (c.chance(5)) { put(q, 3, 0.0f); double l = norm(dbl(q)); if (l < 1e-3) { put(q, 1, 1.0f); l = norm(dbl(q)); } for (unsigned k = 0; k < 3; ++k) put(q, k, float(at(q, k) / l)); shown(c, "q", q); }
    bool wide = c.chance(3); vec3 s = vFin<vec3>(c, wide ? 24 : 6, "S"), T = vFin<vec3>(c, wide ? 40 : 10, "T"); for (unsigned i = 0; i < 3; ++i) { float x = at(s, i); if (std::fabs(x) < (wide ? 1e-7f : 1e-3f)) x = 1.0f; if (c.below(3)) x = std::fabs(x); put(s, i, x); }
    if (!wide && c.chance(3)) { int e = int(c.below(101)) - 50; for (unsigned i = 0; i < 3; ++i) put(s, i, std::ldexp(at(s, i), e)); }   // the factors multiply to less than the smallest float, or more than the largest
    shown(c, "S", s);
    DM<3> R = qmat(scaled(dbl(q), 1 / norm(dbl(q)))); Arr<mat4> a; a.fill(0); a[15] = 1; for (int k = 0; k < 3; ++k) { for (int i = 0; i < 3; ++i) a[k * 4 + i] = float(R[k * 3 + i] * double(at(s, unsigned(k)))); a[12 + k] = at(T, unsigned(k)); }
    mat4 m = mk<mat4>(a); vec3 sc(7.0f), tr(7.0f); quat o(7.0f, 7.0f, 7.0f, 7.0f); zcm::decompose_orthogonal(m, sc, o, tr);
    eqMat<4>(c, m, a, "the input matrix"); near(c, norm(dbl(o)), 1, 4e-6, "|orientation|"); double sign = double(at(s, 0)) * at(s, 1) * at(s, 2) < 0 ? -1 : 1;
    DM<3> O = qmat(scaled(dbl(o), 1 / norm(dbl(o))));
    for (unsigned k = 0; k < 3; ++k) { eqVal(c, at(tr, k), at(T, k), "translation", int(k)); double l = std::fabs(double(at(s, k))); near(c, sign * at(sc, k), l, 1e-6 * l, "scale", int(k));
        for (unsigned i = 0; i < 3; ++i) near(c, O[k * 3 + i] * at(sc, k), a[k * 4 + i], 4e-6 * l, "rotation * scale rebuilds the matrix", int(k * 3 + i)); }
    bool pos = at(s, 0) > 0 && at(s, 1) > 0 && at(s, 2) > 0; if (pos) { DQ Q = dbl(q), W = dbl(o); near(c, std::min(dist(W, Q), dist(W, scaled(Q, -1))), 0, 4e-6, "orientation vs +-q"); }
    mat4 b = zcm::scale(zcm::translate(mat4(1.0f), tr) * zcm::mat4_cast(o), sc); for (unsigned k = 0; k < 4; ++k) for (unsigned i = 0; i < 4; ++i) near(c, at(b, k * 4 + i), a[k * 4 + i], k < 3 ? 6e-6 * std::fabs(double(at(s, k))) : 0, "translate * mat4_cast * scale", int(k * 4 + i));
}
