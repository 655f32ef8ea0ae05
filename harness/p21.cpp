// P21: quaternions and rotation matrices denote the same rotations, and rotate vectors alike.
#include "mat.hpp"
using namespace pbt;
static DM<3> tol3(double t) { DM<3> r; r.fill(t); return r; }
static quat rotQ(Case& c, const char* n) {      // unit quaternions incl. half turns and exact quarter turns
    quat q = unitQ(c, n); if (c.below(5)) return q;
    switch (c.below(3)) { case 0: put(q, 3, 0.0f); break; case 1: put(q, 3, std::ldexp(c.coin() ? 1.0f : -1.0f, -int(c.range(2, 30)))); break;
        default: { unsigned i = unsigned(c.below(4)), j = (i + 1 + unsigned(c.below(3))) % 4; for (unsigned k = 0; k < 4; ++k) put(q, k, k == i || k == j ? (c.coin() ? 1.0f : -1.0f) : 0.0f); } }
    double l = norm(dbl(q)); if (l == 0) { put(q, 0, 1.0f); l = 1; } for (unsigned k = 0; k < 4; ++k) put(q, k, float(at(q, k) / l));
    return shown(c, n, q);
}
LAW_W(toMatrix, 3) {
    quat q = rotQ(c, "q"); DM<3> R = qmat(dbl(q)); mat3 m = zcm::mat3_cast(q); nearMat<3>(c, m, R, tol3(14 * EPS), "mat3_cast");
    mat4 f = zcm::mat4_cast(q); DM<4> w = mident<4>(), t; t.fill(0); for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) { w[k * 4 + i] = R[k * 3 + i]; t[k * 4 + i] = 14 * EPS; } nearMat<4>(c, f, w, t, "mat4_cast");
    DM<3> id = mmul<3>(mtrans<3>(dbl(m)), dbl(m)), I = mident<3>(); for (int i = 0; i < 9; ++i) near(c, id[i], I[i], 60 * EPS, "R^T R", i); near(c, det<3>(dbl(m)), 1, 80 * EPS, "det R");
}
LAW_W(fromMatrix, 5) {
    quat q = rotQ(c, "q"); DM<3> R = qmat(scaled(dbl(q), 1 / norm(dbl(q)))); Arr<mat3> a; Arr<mat4> b; b.fill(0); b[15] = 1;
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) a[k * 3 + i] = b[k * 4 + i] = float(R[k * 3 + i]);
    if (c.coin()) for (int i = 0; i < 3; ++i) { b[12 + i] = finite(c, 5, "T"); }        // the translation column must not matter
    for (int k = 0; k < 3; ++k) { quat g = k == 0 ? zcm::quat_cast(mk<mat3>(a)) : k == 1 ? zcm::quat_cast(mk<mat4>(b)) : zcm::quat_cast(zcm::mat3_cast(q)); DQ G = dbl(g), Q = dbl(q);
        near(c, std::min(dist(G, Q), dist(G, scaled(Q, -1))), 0, 2e-6, k == 0 ? "quat_cast(mat3) vs +-q" : k == 1 ? "quat_cast(mat4) vs +-q" : "quat_cast(mat3_cast(q)) vs +-q"); }
}
LAW_W(rotateVector, 5) {
    quat q = rotQ(c, "q"); vec3 v = vScaled<vec3>(c, 20, "v"); D3 x = dbl(v), w = qrot(dbl(q), x), z = qrot(qconj(dbl(q)), x); double tol = 24 * EPS * norm(x) + 1e-36; vec3 r = q * v, s = v * q;
    for (unsigned i = 0; i < 3; ++i) { near(c, at(r, i), w[i], tol, "q*v", int(i)); near(c, at(s, i), z[i], tol, "v*q", int(i)); }
    near(c, norm(dbl(r)), norm(x), 2 * tol, "|q*v|"); vec3 b = r * q; for (unsigned i = 0; i < 3; ++i) near(c, at(b, i), x[i], 3 * tol, "(q*v)*q", int(i));
    vec3 m = zcm::mat3_cast(q) * v, t = v * zcm::mat3_cast(q); for (unsigned i = 0; i < 3; ++i) { near(c, at(m, i), w[i], 2 * tol, "mat3_cast(q)*v", int(i)); near(c, at(t, i), z[i], 2 * tol, "v*mat3_cast(q)", int(i)); }
}
LAW_W(compose, 3) {
    quat a = rotQ(c, "a"), b = rotQ(c, "b"); vec3 v = vScaled<vec3>(c, 10, "v"); double l = norm(dbl(v)); vec3 x = (a * b) * v, y = a * (b * v); D3 w = qrot(dbl(a), qrot(dbl(b), dbl(v)));
    for (unsigned i = 0; i < 3; ++i) { near(c, at(x, i), w[i], 80 * EPS * l + 1e-36, "(a*b)*v", int(i)); near(c, at(y, i), w[i], 60 * EPS * l + 1e-36, "a*(b*v)", int(i)); }
    nearMat<3>(c, zcm::mat3_cast(a) * zcm::mat3_cast(b), qmat(qmul(dbl(a), dbl(b))), tol3(60 * EPS), "matrix product"); nearMat<3>(c, zcm::mat3_cast(a * b), qmat(qmul(dbl(a), dbl(b))), tol3(80 * EPS), "matrix of the product");
    nearMat<3>(c, zcm::mat3_cast(zcm::conjugate(a)), mtrans<3>(qmat(dbl(a))), tol3(14 * EPS), "matrix of the conjugate");
}
