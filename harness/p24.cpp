// P24: the quaternion between two directions and the look-at quaternions.
#include "gen.hpp"
using namespace pbt;
LAW_W(between, 6) {
    vec3 u = vScaled<vec3>(c, 20, "u"), v = vScaled<vec3>(c, 20, "v"); D3 U = dbl(u); c.require(norm(U) > 1e-9);
    if (c.coin()) {     // nearly parallel, nearly opposite, exactly so, or exactly perpendicular
        D3 P = crossd(U, dbl(v)); double l = norm(P); if (l < 1e-6 * norm(U)) { P = crossd(U, {{1, 2, 3}}); l = norm(P); if (l == 0) { P = crossd(U, {{3, -1, 1}}); l = norm(P); } }
        P = scaled(P, norm(U) / l); double e = c.coin() ? 0 : std::ldexp(1.0, -int(c.range(1, 30))), k = std::ldexp(1.0, int(c.range(-3, 3)));
        D3 w; switch (c.below(3)) { case 0: w = plus(U, scaled(P, e)); break; case 1: w = plus(scaled(U, -1), scaled(P, e)); break; default: w = plus(P, scaled(U, e)); }
        for (unsigned i = 0; i < 3; ++i) put(v, i, float(w[i] * k)); shown(c, "v", v);
    }
    D3 V = dbl(v); c.require(norm(V) > 1e-9); U = scaled(U, 1 / norm(U)); V = scaled(V, 1 / norm(V));
    quat q(u, v); DQ Q = dbl(q); double th = std::atan2(norm(crossd(U, V)), dotd(U, V)), d = 3.14159265358979 - th, tol = d < 5e-3 ? 5e-3 : 1e-6 + 64 * EPS / d;
    near(c, norm(Q), 1, 16 * EPS, "|quat(u,v)|"); near(c, dist(qrot(Q, U), V), 0, tol, "rotating u's direction onto v's");
    near(c, std::fabs(Q[3]), std::cos(th / 2), tol, "the rotation is the shortest: |w| = cos(half the angle)"); vec3 r = q * u; double lu = norm(dbl(u)); for (unsigned i = 0; i < 3; ++i) near(c, at(r, i), V[i] * lu, (tol + 30 * EPS) * lu, "quat(u,v) * u", int(i));
}
template<bool LH> void look(Case& c) {
    vec3 d = unitV<vec3>(c, "dir"), up = c.chance(3) ? vec3(0.0f, 1.0f, 0.0f) : vScaled<vec3>(c, 20, "up"); shown(c, "up", up); D3 D = dbl(d), U = dbl(up); double lu = norm(U); c.require(lu > 1e-9); D3 f = LH ? D : scaled(D, -1), s = crossd(U, f); double sn = norm(s) / lu; c.require(sn > 0.02);
    s = scaled(s, 1 / norm(s)); D3 t = crossd(f, s); quat q = LH ? zcm::quatLookAtLH(d, up) : zcm::quatLookAtRH(d, up); DQ Q = dbl(q); double tol = 60 * EPS / sn + 1e-6;
    near(c, norm(Q), 1, tol, "|quatLookAt|"); near(c, dist(qrot(Q, {{0, 0, LH ? 1.0 : -1.0}}), D), 0, 3 * tol, "forward axis goes to the direction"); near(c, dist(qrot(Q, {{1, 0, 0}}), s), 0, 3 * tol, "right axis"); near(c, dist(qrot(Q, {{0, 1, 0}}), t), 0, 3 * tol, "up axis");
}
LAW_W(lookLH, 3) { look<true>(c); } LAW_W(lookRH, 3) { look<false>(c); }
