// P18: translate, rotate and scale multiply the given matrix from the right by the named transform.
#include "mat.hpp"
using namespace pbt;
static void rightMul(Case& c, const mat4& m, const mat4& got, const DM<4>& t, double k, const char* what) {
    DM<4> w = mmul<4>(dbl(m), t), tol = mmul<4>(absd(dbl(m)), absd(t)); for (auto& x : tol) x = k * EPS * x + 1e-37; nearMat<4>(c, got, w, tol, what);
}
static mat4 base(Case& c) { if (c.chance(4)) return shown(c, "M", mat4(1.0f)); return matGen<4>(c, "M"); }
LAW_W(translate, 3) {
    mat4 m = base(c); vec3 v = vFin<vec3>(c, c.coin() ? 8 : 28, "v"); DM<4> t = mident<4>(); for (int i = 0; i < 3; ++i) t[12 + i] = at(v, i);
    mat4 r = zcm::translate(m, v); rightMul(c, m, r, t, 6, "translate"); for (unsigned i = 0; i < 12; ++i) eqVal(c, at(r, i), at(m, i), "translate keeps the first three columns", int(i));
}
LAW_W(scale, 3) {
    mat4 m = base(c); vec3 v = vFin<vec3>(c, c.coin() ? 8 : 28, "v"), z = v; (void)z; mat4 r = zcm::scale(m, v);
    for (unsigned k = 0; k < 4; ++k) for (unsigned i = 0; i < 4; ++i) eqVal(c, at(r, k * 4 + i), k < 3 ? at(m, k * 4 + i) * at(v, k) : at(m, k * 4 + i), "scale", int(k * 4 + i));
}
static float ang(Case& c) { if (c.coin()) return recF(c, "angle", float(3.14159265358979 / 12 * double(c.range(-48, 48)))); return finite(c, c.coin() ? 4 : 30, "angle"); }
LAW_W(rotate, 5) {
    mat4 m = base(c); vec3 a = c.coin() ? vScaled<vec3>(c, 20, "axis") : unitV<vec3>(c, "axis"); float f = ang(c); D3 x = dbl(a); c.require(norm(x) > 0);
    DM<3> R = rodrigues(f, x); DM<4> t = mident<4>(); for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) t[k * 4 + i] = R[k * 3 + i];
    DM<4> w = mmul<4>(dbl(m), t); mat4 r = zcm::rotate(m, f, a); DM<4> A = absd(dbl(m)), tol;
    for (int k = 0; k < 4; ++k) for (int i = 0; i < 4; ++i) tol[k * 4 + i] = k < 3 ? 24 * EPS * (A[i] + A[4 + i] + A[8 + i]) + 1e-37 : 0;
    nearMat<4>(c, r, w, tol, "rotate");
}
LAW_W(chains, 3) {      // a history of transforms against the product of their references
    mat4 m(1.0f); DM<4> w = mident<4>(), mag = w; unsigned n = 1 + unsigned(c.below(6));
    for (unsigned s = 0; s < n; ++s) {
        DM<4> t = mident<4>(); unsigned k = unsigned(c.below(3));
        if (k == 0) { vec3 v = vFin<vec3>(c, 3, "T"); m = zcm::translate(m, v); for (int i = 0; i < 3; ++i) t[12 + i] = at(v, i); }
        else if (k == 1) { vec3 v = vFin<vec3>(c, 2, "S"); m = zcm::scale(m, v); for (int i = 0; i < 3; ++i) t[i * 5] = at(v, i); }
        else { vec3 a = unitV<vec3>(c, "A"); float f = ang(c); m = zcm::rotate(m, f, a); DM<3> R = rodrigues(f, dbl(a)); for (int q = 0; q < 3; ++q) for (int i = 0; i < 3; ++i) t[q * 4 + i] = R[q * 3 + i]; }
        w = mmul<4>(w, t); DM<4> at_ = absd(t); if (k == 2) for (int q = 0; q < 3; ++q) for (int i = 0; i < 3; ++i) at_[q * 4 + i] = 1; mag = mmul<4>(mag, at_);
    }
    for (auto& x : mag) x = x * 24 * EPS * n + 1e-30;
    nearMat<4>(c, m, w, mag, "chain of transforms");
}
