// P20: quaternion algebra.
#include "gen.hpp"
using namespace pbt;
// component order in memory is x, y, z, w; the constructor takes w first
LAW_W(elementwise, 3) {
    quat a = vAny<quat>(c, "a"), b = vAny<quat>(c, "b"); float s = anyFloat(c, "s"); quat r;
    auto each = [&](const quat& g, auto f, const char* what) { for (unsigned i = 0; i < 4; ++i) eqVal(c, at(g, i), f(at(a, i), at(b, i)), what, int(i)); };
    each(a + b, [](float x, float y) { return x + y; }, "a+b"); each(a - b, [](float x, float y) { return x - y; }, "a-b"); each(-a, [](float x, float) { return -x; }, "-a"); each(+a, [](float x, float) { return x; }, "+a");
    each(a * s, [&](float x, float) { return x * s; }, "a*s"); each(s * a, [&](float x, float) { return s * x; }, "s*a"); each(a / s, [&](float x, float) { return x / s; }, "a/s"); each(s / a, [&](float x, float) { return s / x; }, "s/a");
    r = a; r += b; each(r, [](float x, float y) { return x + y; }, "a+=b"); r = a; r -= b; each(r, [](float x, float y) { return x - y; }, "a-=b");
    r = a; r *= s; each(r, [&](float x, float) { return x * s; }, "a*=s"); r = a; r /= s; each(r, [&](float x, float) { return x / s; }, "a/=s");
    r = a; r += r; each(r, [](float x, float) { return x + x; }, "a+=a"); r = a; r -= r; each(r, [](float x, float) { return x - x; }, "a-=a");
    unsigned k = unsigned(c.below(4)); float sk = at(a, k); r = a; r *= r[k]; each(r, [&](float x, float) { return x * sk; }, "a*=a[k]"); r = a; r /= r[k]; each(r, [&](float x, float) { return x / sk; }, "a/=a[k]");
    quat j = zcm::conjugate(a); for (unsigned i = 0; i < 4; ++i) eqVal(c, at(j, i), i < 3 ? -at(a, i) : at(a, i), "conjugate", int(i));
}
LAW_W(equality, 1) {
    quat a = vAny<quat>(c, "a"), b = a; if (c.coin()) put(b, unsigned(c.below(4)), anyFloat(c, "e")); else if (c.below(3)) b = cousin(c, "b", a);
    bool e = true; for (unsigned i = 0; i < 4; ++i) e = e && at(a, i) == at(b, i); CHECK((a == b) == e, "=="); CHECK((a != b) == !e, "!=");
}
static void nearQ(Case& c, const quat& g, const DQ& w, double tol, const char* what) { for (unsigned i = 0; i < 4; ++i) near(c, at(g, i), w[i], tol, what, int(i)); }
LAW_W(product, 5) {
    quat a = c.coin() ? unitQ(c, "a") : vScaled<quat>(c, 20, "a"), b = c.coin() ? unitQ(c, "b") : vScaled<quat>(c, 20, "b"); double m = norm(dbl(a)) * norm(dbl(b)), tol = 24 * EPS * m + 1e-36;
    DQ w = qmul(dbl(a), dbl(b)); nearQ(c, a * b, w, tol, "a*b"); quat r = a; r *= b; nearQ(c, r, w, tol, "a*=b");
    double na = norm(dbl(a)); r = a; r *= r; nearQ(c, r, qmul(dbl(a), dbl(a)), 24 * EPS * na * na + 1e-36, "a*=a");
    quat one; nearQ(c, one * a, dbl(a), 24 * EPS * na + 1e-36, "1*a"); nearQ(c, a * one, dbl(a), 24 * EPS * na + 1e-36, "a*1");
    double na2 = na * na; nearQ(c, a * zcm::conjugate(a), DQ{{0, 0, 0, na2}}, 24 * EPS * na2 + 1e-36, "a*conjugate(a)");
}
LAW_W(basis, 1) {       // i j = k and so on, exactly, with signs and powers of two
    quat u[4]; for (unsigned i = 0; i < 4; ++i) { u[i] = quat(0.0f, 0.0f, 0.0f, 0.0f); put(u[i], i, 1.0f); }
    unsigned i = unsigned(c.below(4)), j = unsigned(c.below(4)); float s = std::ldexp(c.coin() ? -1.0f : 1.0f, int(c.range(-6, 6))); c.payload(i); c.payload(4 + j); c.payload(bitsOf(s)); if (c.verbose) c.say(fmt("e%u * e%u * %g", i, j, s));
    DQ w = scaled(qmul(dbl(u[i]), dbl(u[j])), s); nearQ(c, (u[i] * s) * u[j], w, 0, "basis product");
}
LAW_W(inverse, 3) {
    quat a = c.coin() ? unitQ(c, "a") : vScaled<quat>(c, 15, "a"); double n = norm(dbl(a)); c.require(n > 1e-9); quat v = zcm::inverse(a); DQ w = scaled(qconj(dbl(a)), 1 / (n * n));
    nearQ(c, v, w, 12 * EPS / n, "inverse"); nearQ(c, a * v, DQ{{0, 0, 0, 1}}, 40 * EPS, "a*inverse(a)"); nearQ(c, v * a, DQ{{0, 0, 0, 1}}, 40 * EPS, "inverse(a)*a");
    vec3 x = vFin<vec3>(c, 6, "x"), l = x * a, r = v * x; double m = norm(dbl(x)) * (1 + 1 / n) * (1 + 1 / n); for (unsigned i = 0; i < 3; ++i) near(c, at(l, i), at(r, i), 40 * EPS * m, "x*a = inverse(a)*x", int(i));
}
// q * v = v + 2 w (u x v) + 2 u x (u x v) with u the vector part: the rotation when q is a unit quaternion, and the same formula as GLM's otherwise
LAW_W(applied, 3) {
    quat q = c.coin() ? unitQ(c, "q") : vScaled<quat>(c, 12, "q"); vec3 v = c.coin() ? vScaled<vec3>(c, 12, "v") : vFin<vec3>(c, 6, "v"), r = q * v;
    D3 u = {{at(q, 0), at(q, 1), at(q, 2)}}, x = dbl(v), t = crossd(u, x), tt = crossd(u, t); double n = norm(dbl(q)), m = norm(x), tol = 24 * EPS * m * (1 + n * n) + 1e-36;
    for (unsigned i = 0; i < 3; ++i) near(c, at(r, i), x[i] + 2 * double(at(q, 3)) * t[i] + 2 * tt[i], tol, "q*v", int(i));
}
LAW_W(history, 3) {     // products of unit quaternions against a double model
    quat r[3]; DQ m[3]; double e[3] = {0, 0, 0}; for (int i = 0; i < 3; ++i) { r[i] = unitQ(c, "r"); m[i] = dbl(r[i]); }
    unsigned n = 1 + unsigned(c.below(12));
    for (unsigned s = 0; s < n; ++s) {
        unsigned d = unsigned(c.below(3)), x = unsigned(c.below(3)), y = unsigned(c.below(3)), k = unsigned(c.below(5)); if (c.verbose) c.say(fmt("[%u d%u x%u y%u]", k, d, x, y));
        switch (k) {
        case 0: m[d] = qmul(m[x], m[y]); e[d] = e[x] + e[y] + 40 * EPS; r[d] = r[x] * r[y]; break;
        case 1: m[d] = qmul(m[d], m[x]); e[d] = e[d] + e[x] + 40 * EPS; r[d] *= r[x]; break;
        case 2: m[d] = qconj(m[x]); e[d] = e[x]; r[d] = zcm::conjugate(r[x]); break;
        case 3: { double q = dotd(m[x], m[x]); m[d] = scaled(qconj(m[x]), 1 / q); e[d] = 2 * e[x] + 16 * EPS; r[d] = zcm::inverse(r[x]); break; }
        case 4: m[d] = scaled(m[x], -1); e[d] = e[x]; r[d] = -r[x]; break;
        }
        if (e[d] > 1e-2) return;
        for (int i = 0; i < 3; ++i) nearQ(c, r[i], m[i], 1.5 * e[i] + 1e-12, "history");
    }
}
