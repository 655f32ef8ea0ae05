// P19: view and projection matrices.
#include "mat.hpp"
using namespace pbt;
template<bool LH> void look(Case& c) {
    vec3 eye = vScaled<vec3>(c, 6, "eye"), up = vScaled<vec3>(c, 20, "up"), ctr = vScaled<vec3>(c, 6, "center");
    if (c.chance(4)) { float s = std::ldexp(1.0f, int(c.range(-20, 20))); for (unsigned i = 0; i < 3; ++i) { put(eye, i, at(eye, i) * s); put(ctr, i, at(ctr, i) * s); } shown(c, "eye", eye); shown(c, "center", ctr); }
    switch (c.below(4)) { case 0: up = vec3(0.0f); put(up, 1, 1.0f); shown(c, "up", up); break; case 1: eye = vec3(0.0f); shown(c, "eye", eye); break; }
    D3 E = dbl(eye), U = dbl(up), f = minus(dbl(ctr), E); double l = norm(f), lu = norm(U); c.require(l > 1e-12 && lu > 0 && l > 1e-3 * norm(E));
    f = scaled(f, 1 / l); D3 s = LH ? crossd(U, f) : crossd(f, U); double sn = norm(s) / lu; c.require(sn > 0.02); s = scaled(s, 1 / norm(s)); D3 u = LH ? crossd(f, s) : crossd(s, f);
    DM<4> w = mident<4>(), t; t.fill(0); double k = 30 * EPS / sn;
    D3 row[3] = {s, u, LH ? f : scaled(f, -1)};
    for (int r = 0; r < 3; ++r) { for (int q = 0; q < 3; ++q) { w[q * 4 + r] = row[r][q]; t[q * 4 + r] = k; } w[12 + r] = -dotd(row[r], E); t[12 + r] = 3 * k * norm(E) + 1e-37; }
    mat4 got = LH ? zcm::lookAtLH(eye, ctr, up) : zcm::lookAtRH(eye, ctr, up);
    nearMat<4>(c, got, w, t, LH ? "lookAtLH" : "lookAtRH");
}
LAW_W(lookLH, 3) { look<true>(c); } LAW_W(lookRH, 3) { look<false>(c); }
LAW_W(ortho, 5) {
    int e = c.pick({8, 8, 30}); float l = finite(c, e, "l"), r = finite(c, e, "r"), b = finite(c, e, "b"), t = finite(c, e, "t"), n = finite(c, e, "n"), f = finite(c, e, "f");
    if (c.chance(4)) { float s = std::ldexp(1.0f, int(c.range(-20, 20))); for (float* p : {&l, &r, &b, &t, &n, &f}) *p *= s; c.note("scaled by", "%g", double(s)); }
    if (c.coin()) { r = -l; t = -b; c.note("symmetric", "%d", 1); }
    c.require(l != r && b != t && n != f); unsigned k = unsigned(c.below(5)); c.note("kind", "%u", k);
    bool lh = k == 1 || k == 2, no = k == 2 || k == 4; double L = l, R = r, B = b, T = t, N = n, F = f, sg = lh ? 1 : -1;
    mat4 g = k == 0 ? zcm::ortho(l, r, b, t) : k == 1 ? zcm::orthoLH_ZO(l, r, b, t, n, f) : k == 2 ? zcm::orthoLH_NO(l, r, b, t, n, f) : k == 3 ? zcm::orthoRH_ZO(l, r, b, t, n, f) : zcm::orthoRH_NO(l, r, b, t, n, f);
    DM<4> w = mident<4>(), tol; tol.fill(0); auto rel = [&](int i, double v, double m) { w[i] = v; tol[i] = 6 * EPS * m; };
    rel(0, 2 / (R - L), 2 / std::fabs(R - L)); rel(5, 2 / (T - B), 2 / std::fabs(T - B));
    rel(12, -(R + L) / (R - L), (std::fabs(R) + std::fabs(L)) / std::fabs(R - L)); rel(13, -(T + B) / (T - B), (std::fabs(T) + std::fabs(B)) / std::fabs(T - B));
    if (k == 0) w[10] = -1;
    else { rel(10, sg * (no ? 2 : 1) / (F - N), 2 / std::fabs(F - N)); rel(14, no ? -(F + N) / (F - N) : -N / (F - N), (std::fabs(F) + std::fabs(N)) / std::fabs(F - N)); }
    nearMat<4>(c, g, w, tol, "ortho");
}
LAW_W(perspective, 5) {
    float fov = c.coin() ? 0.05f + float(c.below(3000)) / 1000.0f : recF(c, "fovy", float(3.14159265358979 / 180 * double(c.range(1, 175)))); c.note("fovy", "%.9g", fov);
    float as = c.pick({1.0f, 1.7777778f, 1.3333334f, 0.5f, 2.5f}); if (c.coin()) as = 0.1f + float(c.below(4000)) / 1000.0f; int e = c.pick({10, 10, 24}); float n = std::fabs(finite(c, e, "n")), f = std::fabs(finite(c, e, "f")); if (c.chance(4)) fov = c.pick({1.0f, 0.5f, 1.5f, 2.0f, 1.0f, 3.0f}); if (c.chance(4)) as = c.pick({1.0f, 2.0f, 0.5f, 4.0f, 1.0f, 3.0f}); c.note("fov", "%.9g", fov); c.note("aspect", "%.9g", as);
    c.require(n > 0 && f > 0 && n != f); if (n > f && c.chance(8) == false) std::swap(n, f);
    unsigned k = unsigned(c.below(4)); c.note("kind", "%u", k); bool lh = k & 1, no = k & 2; double N = n, F = f, T = std::tan(double(fov) / 2);
    mat4 g = k == 0 ? zcm::perspectiveRH_ZO(fov, as, n, f) : k == 1 ? zcm::perspectiveLH_ZO(fov, as, n, f) : k == 2 ? zcm::perspectiveRH_NO(fov, as, n, f) : zcm::perspectiveLH_NO(fov, as, n, f);
    DM<4> w, tol; w.fill(0); tol.fill(0); auto rel = [&](int i, double v) { w[i] = v; tol[i] = 8 * EPS * std::fabs(v) * (std::fabs(F) + std::fabs(N)) / std::max(std::fabs(F), std::fabs(N)); };
    rel(0, 1 / (as * T)); rel(5, 1 / T); double z = no ? (F + N) / (F - N) : F / (F - N); rel(10, lh ? z : -z); w[11] = lh ? 1 : -1; rel(14, (no ? -2 : -1) * F * N / (F - N));
    nearMat<4>(c, g, w, tol, "perspective");
    // the near and far planes land on the ends of the clip range
    for (int e = 0; e < 2; ++e) { double d = e ? F : N, zc = (lh ? d : -d) * double(at(g, 10)) + double(at(g, 14)), wc = (lh ? d : -d) * double(at(g, 11)), want = e ? 1 : no ? -1 : 0;
        near(c, zc / wc, want, 20 * EPS * (std::fabs(double(at(g, 10))) + std::fabs(double(at(g, 14)) / d)), e ? "far plane" : "near plane"); }
}
