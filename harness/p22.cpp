// P22: axis-angle and Euler-angle views of quaternions.
#include "mat.hpp"
using namespace pbt;
static const double PI = 3.14159265358979323846;
static float ang(Case& c, double lo, double hi, const char* n) { double v; switch (c.below(3)) { case 0: v = PI / 12 * double(c.range(-24, 24)); break; case 1: v = finite(c, 4); break; default: v = lo + (hi - lo) * double(c.below(1u << 20)) / (1 << 20); } if (v < lo) v = lo; if (v > hi) v = hi; return recF(c, n, float(v)); }
static DQ aa(double a, D3 x) { double n = norm(x); x = scaled(x, std::sin(a / 2) / n); return DQ{{x[0], x[1], x[2], std::cos(a / 2)}}; }
static double rotDist(const DQ& a, const DQ& b) { return std::min(dist(a, b), dist(a, scaled(b, -1))); }
static void nearQ(Case& c, const quat& g, const DQ& w, double tol, const char* what) { for (unsigned i = 0; i < 4; ++i) near(c, at(g, i), w[i], tol, what, int(i)); }
LAW_W(fromAxisAngle, 3) {
    float a = c.chance(4) ? finite(c, 30, "angle") : ang(c, -13, 13, "angle"); vec3 x = unitV<vec3>(c, "axis"); quat q = zcm::angleAxis(a, x); nearQ(c, q, aa(a, dbl(x)), 8 * EPS, "angleAxis");
    vec3 v = vScaled<vec3>(c, 8, "v"); DM<3> R = rodrigues(a, dbl(x)); vec3 r = q * v; for (int i = 0; i < 3; ++i) { double w = 0; for (int k = 0; k < 3; ++k) w += R[k * 3 + i] * double(at(v, unsigned(k))); near(c, at(r, unsigned(i)), w, 40 * EPS * norm(dbl(v)) + 1e-36, "angleAxis * v", i); }
}
LAW_W(toAxisAngle, 4) {
    quat q = unitQ(c, "q"); DQ Q = dbl(q); double s = std::sqrt(Q[0] * Q[0] + Q[1] * Q[1] + Q[2] * Q[2]), tol = std::min(2e-3, 24 * EPS / std::max(s, 1e-12)) + 1e-6;
    float a = zcm::angle(q); vec3 x = zcm::axis(q); CHECK(a >= 0 && a <= 6.2831860f, "angle = %a", a); near(c, a, 2 * std::atan2(s, Q[3]), Q[3] > 0.9 ? 24 * EPS * s + 1e-18 : 2e-6, "angle");
    if (s > 2e-2) { near(c, norm(dbl(x)), 1, 8 * EPS / (s * s) + 1e-6, "|axis|"); for (unsigned i = 0; i < 3; ++i) near(c, at(x, i), Q[i] / s, 8 * EPS / (s * s) + 1e-6, "axis", int(i)); }
    nearQ(c, zcm::angleAxis(a, x), Q, tol, "angleAxis(angle(q), axis(q))");
    for (unsigned i = 0; i < 3; ++i) CHECK(std::isfinite(at(x, i)), "axis is not finite");
}
LAW_W(rotate, 3) {
    quat q = c.chance(4) ? vScaled<quat>(c, 4, "q") : unitQ(c, "q"); float a = c.chance(4) ? finite(c, 30, "angle") : ang(c, -13, 13, "angle"); vec3 x = c.coin() ? unitV<vec3>(c, "axis") : vScaled<vec3>(c, 15, "axis"); c.require(norm(dbl(x)) > 1e-12);
    nearQ(c, zcm::rotate(q, a, x), qmul(dbl(q), aa(a, dbl(x))), 48 * EPS * std::max(norm(dbl(q)), 1e-30), "rotate(q, angle, axis)");
}
static DQ fromEuler(double p, double y, double r) { return qmul(qmul(aa(r, {{0, 0, 1}}), aa(y, {{0, 1, 0}})), aa(p, {{1, 0, 0}})); }
LAW_W(fromEuler, 3) {
    vec3 e; for (unsigned i = 0; i < 3; ++i) { unsigned k = unsigned(c.below(8)); put(e, i, k == 0 ? finite(c, 30, "e") : k > 2 ? ang(c, -7, 7, "e") : 0.0f); } shown(c, "euler", e);
    nearQ(c, quat(e), fromEuler(at(e, 0), at(e, 1), at(e, 2)), 10 * EPS, "quat(euler)");
}
LAW_W(toEuler, 5) {
    quat q = unitQ(c, "q");
    unsigned form = unsigned(c.below(8));
    if (form == 7) { for (unsigned i = 0; i < 4; ++i) put(q, i, c.coin() ? 0.5f : -0.5f); shown(c, "q", q); }
    else if (form > 4) {        // close to gimbal lock, down to the distance that single precision still resolves
        DQ w = fromEuler(ang(c, -3.1, 3.1, "pitch"), (c.coin() ? 1 : -1) * (PI / 2 - std::pow(10.0, -double(c.range(10, 46)) / 10)), ang(c, -3.1, 3.1, "roll"));
        for (unsigned i = 0; i < 4; ++i) put(q, i, float(w[i]));
        shown(c, "q", q);
    }
    DQ Q = scaled(dbl(q), 1 / norm(dbl(q))); double sy = 2 * (Q[3] * Q[1] - Q[0] * Q[2]), cy = std::sqrt(std::max(0.0, 1 - sy * sy)); vec3 e = zcm::eulerAngles(q);
    bool lockExact = std::fabs(Q[0]) == 0.5 && std::fabs(Q[1]) == 0.5 && std::fabs(Q[2]) == 0.5;
    eqVal(c, at(e, 0), zcm::pitch(q), "eulerAngles.x is pitch"); eqVal(c, at(e, 1), zcm::yaw(q), "eulerAngles.y is yaw"); eqVal(c, at(e, 2), zcm::roll(q), "eulerAngles.z is roll");
    near(c, at(e, 1), std::asin(std::max(-1.0, std::min(1.0, sy))), std::min(1e-3, 8 * EPS / std::max(cy, 1e-9)) + 1e-6, "yaw");
    if (!lockExact && cy < 2e-5) { c.interesting = false; return; }
    double tol = lockExact ? 1e-6 : 32 * EPS / cy + 1e-6, turn = 32 * EPS / std::max(cy, 1e-30) + 1e-6;
    if (!lockExact) { near(c, std::fabs(std::remainder(at(e, 0) - std::atan2(2 * (Q[1] * Q[2] + Q[3] * Q[0]), Q[3] * Q[3] - Q[0] * Q[0] - Q[1] * Q[1] + Q[2] * Q[2]), 2 * PI)), 0, turn, "pitch"); near(c, std::fabs(std::remainder(at(e, 2) - std::atan2(2 * (Q[0] * Q[1] + Q[3] * Q[2]), Q[3] * Q[3] + Q[0] * Q[0] - Q[1] * Q[1] - Q[2] * Q[2]), 2 * PI)), 0, turn, "roll"); }
    near(c, rotDist(dbl(quat(e)), Q), 0, tol, "quat(eulerAngles(q)) vs +-q"); near(c, rotDist(fromEuler(at(e, 0), at(e, 1), at(e, 2)), Q), 0, tol, "rotation described by eulerAngles(q)");
    // at gimbal lock the split between pitch and roll is a free choice, and 2 atan2 may name it with more than half a turn
    CHECK(std::fabs(at(e, 0)) <= (lockExact ? 6.2831864f : 3.1415932f) && std::fabs(at(e, 1)) <= 1.5707966f && std::fabs(at(e, 2)) <= 3.1415932f, "angles out of range: %s", show(e).c_str());
}
LAW_W(eulerRoundTrip, 3) {
    vec3 e; put(e, 0, ang(c, -3.1, 3.1, "pitch")); put(e, 1, ang(c, -1.5, 1.5, "yaw")); put(e, 2, ang(c, -3.1, 3.1, "roll")); double cy = std::cos(double(at(e, 1))), tol = 64 * EPS / cy / cy + 2e-6; vec3 r = zcm::eulerAngles(quat(e));
    for (unsigned i = 0; i < 3; ++i) near(c, at(r, i), at(e, i), tol, "eulerAngles(quat(e))", int(i));
}
