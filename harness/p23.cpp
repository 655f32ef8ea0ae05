// P23: quaternion interpolation.
#include "gen.hpp"
using namespace pbt;
static void nearQ(Case& c, const quat& g, const DQ& w, double tol, const char* what) { for (unsigned i = 0; i < 4; ++i) near(c, at(g, i), w[i], tol, what, int(i)); }
static float tgen(Case& c) { float t; switch (c.below(4)) { case 0: t = 0; break; case 1: t = 1; break; case 2: t = float(c.below(9)) / 8; break; default: t = float(c.below((1u << 24) + 1)) / float(1 << 24); } return recF(c, "t", t); }
static quat near2(Case& c, const quat& a) {     // from independent to nearly equal, nearly opposite and nearly perpendicular
    quat b = unitQ(c, "y"); DQ A = dbl(a), B = dbl(b); double k = dotd(A, B), eps = std::ldexp(1.0, -int(c.range(1, 30))); DQ P = plus(B, scaled(A, -k)); double l = norm(P); if (l < 1e-3) return b; P = scaled(P, 1 / l);
    DQ r; switch (c.below(5)) { case 0: r = plus(A, scaled(P, eps)); break; case 1: r = plus(scaled(A, -1), scaled(P, eps)); break; case 2: r = plus(P, scaled(A, c.coin() ? eps : -eps)); break; case 3: r = c.coin() ? A : scaled(A, -1); break; default: return b; }
    double n = norm(r); for (unsigned i = 0; i < 4; ++i) put(b, i, float(r[i] / n)); return shown(c, "y", b);
}
LAW_W(lerp, 3) {
    quat x = c.coin() ? unitQ(c, "x") : vFin<quat>(c, c.coin() ? 8 : 40, "x"), y = c.coin() ? unitQ(c, "y") : vFin<quat>(c, c.coin() ? 8 : 40, "y"); float t = tgen(c); quat r = zcm::lerp(x, y, t);
    for (unsigned i = 0; i < 4; ++i) near(c, at(r, i), double(at(x, i)) * (1 - double(t)) + double(at(y, i)) * t, 4 * EPS * (std::fabs(at(x, i)) + std::fabs(at(y, i))) + 1e-37, "lerp", int(i));
    nearQ(c, zcm::lerp(x, y, 0.0f), dbl(x), 0, "lerp at 0"); nearQ(c, zcm::lerp(x, y, 1.0f), dbl(y), 0, "lerp at 1");
}
LAW_W(nlerp, 3) {
    quat x = unitQ(c, "x"), y = near2(c, x); float t = tgen(c); DQ w = plus(scaled(dbl(x), 1 - double(t)), scaled(dbl(y), t)); double l = norm(w); c.require(l > 1e-3);
    quat r = zcm::nlerp(x, y, t); nearQ(c, r, scaled(w, 1 / l), 12 * EPS / l, "nlerp"); near(c, norm(dbl(r)), 1, 16 * EPS, "|nlerp|");
}
LAW_W(nlerpAny, 2) {     // end points of any length
    quat x = vScaled<quat>(c, 24, "x"), y = vScaled<quat>(c, 24, "y"); float t = tgen(c); DQ w = plus(scaled(dbl(x), 1 - double(t)), scaled(dbl(y), t)); double l = norm(w), s = norm(dbl(x)) * (1 - double(t)) + norm(dbl(y)) * t; c.require(s > 0 && l > 1e-3 * s);
    quat r = zcm::nlerp(x, y, t); nearQ(c, r, scaled(w, 1 / l), 16 * EPS * s / l, "nlerp"); near(c, norm(dbl(r)), 1, 16 * EPS, "|nlerp|");
}
LAW_W(slerp, 6) {
    quat x = unitQ(c, "x"), y = near2(c, x); float t = tgen(c); DQ X = scaled(dbl(x), 1 / norm(dbl(x))), Y = scaled(dbl(y), 1 / norm(dbl(y))); double k = dotd(X, Y); quat r = zcm::slerp(x, y, t);
    near(c, norm(dbl(r)), 1, 1.5e-6, "|slerp|");
    double best = 1e9; for (int s = -1; s <= 1; s += 2) {
        if (s * k < -1e-6) continue;        // the long way round; both ways are short when the quaternions are perpendicular
        DQ Z = scaled(Y, s), P = plus(Z, scaled(X, -s * k)); double sn = norm(P), th = std::atan2(sn, s * k), a = t * th; DQ w = sn < 1e-12 ? X : plus(scaled(X, std::cos(a)), scaled(P, std::sin(a) / sn));
        best = std::min(best, dist(dbl(r), w)); }
    near(c, best, 0, 3e-6, "slerp vs the point t along the shorter arc");
    quat a = zcm::slerp(x, y, 0.0f), b = zcm::slerp(x, y, 1.0f); near(c, dist(dbl(a), dbl(x)), 0, 1.5e-6, "slerp at 0"); near(c, std::min(dist(dbl(b), dbl(y)), dist(dbl(b), scaled(dbl(y), -1))), 0, 1.5e-6, "slerp at 1 vs +-y");
}
