// P16: matrix algebra.
#include "mat.hpp"
using namespace pbt;
template<int n> struct L {
    using M = typename MatOf<n>::M; using V = typename MatOf<n>::V;
    static M any(Case& c, const char* nm) { return c.coin() ? matGen<n>(c, nm) : vAny<M>(c, nm); }
    static void elementwise(Case& c) {
        M a = any(c, "A"), b = any(c, "B"); float s = anyFloat(c, "s"); Arr<M> w, a0 = arr(a), b0 = arr(b); auto F = [&](auto f) { for (unsigned i = 0; i < n * n; ++i) w[i] = f(at(a, i), at(b, i)); return w; };
        eqMat<n>(c, a + b, F([](float x, float y) { return x + y; }), "A+B"); eqMat<n>(c, a - b, F([](float x, float y) { return x - y; }), "A-B");
        eqMat<n>(c, -a, F([](float x, float) { return -x; }), "-A"); eqMat<n>(c, +a, arr(a), "+A");
        eqMat<n>(c, a * s, F([&](float x, float) { return x * s; }), "A*s"); eqMat<n>(c, s * a, F([&](float x, float) { return s * x; }), "s*A");
        eqMat<n>(c, a / s, F([&](float x, float) { return x / s; }), "A/s"); eqMat<n>(c, s / a, F([&](float x, float) { return s / x; }), "s/A");
        eqMat<n>(c, zcm::matrixCompMult(a, b), F([](float x, float y) { return x * y; }), "matrixCompMult");
        M t = a; t += b; eqMat<n>(c, t, F([](float x, float y) { return x + y; }), "A+=B"); t = a; t -= b; eqMat<n>(c, t, F([](float x, float y) { return x - y; }), "A-=B");
        t = a; t += t; eqMat<n>(c, t, F([](float x, float) { return x + x; }), "A+=A"); t = a; t -= t; eqMat<n>(c, t, F([](float x, float) { return x - x; }), "A-=A");
        eqMat<n>(c, a, a0, "A is left alone"); eqMat<n>(c, b, b0, "B is left alone");
    }
    static void equality(Case& c) {
        M a = any(c, "A"), b = a;
        switch (c.below(6)) { case 0: break; case 1: b = any(c, "B"); break; case 2: case 3: b = cousin(c, "B", a); break; default: put(b, unsigned(c.below(n * n)), anyFloat(c, "e")); }
        bool e = true; for (unsigned i = 0; i < n * n; ++i) e = e && at(a, i) == at(b, i);
        CHECK((a == b) == e, "%s vs %s", show(a).c_str(), show(b).c_str()); CHECK((a != b) == !e, "%s vs %s", show(a).c_str(), show(b).c_str());
    }
    static void product(Case& c) {
        M a = matGen<n>(c, "A"), b = matGen<n>(c, "B"); DM<n> w = mmul<n>(dbl(a), dbl(b)), t = mmul<n>(absd(dbl(a)), absd(dbl(b))); for (auto& x : t) x *= (n + 1) * EPS;
        nearMat<n>(c, a * b, w, t, "A*B"); M r = a; r *= b; nearMat<n>(c, r, w, t, "A*=B");
        w = mmul<n>(dbl(a), dbl(a)); t = mmul<n>(absd(dbl(a)), absd(dbl(a))); for (auto& x : t) x *= (n + 1) * EPS;
        r = a; r *= r; nearMat<n>(c, r, w, t, "A*=A"); nearMat<n>(c, a * a, w, t, "A*A");
        eqMat<n>(c, a * M(1.0f), arr(a), "A*I"); eqMat<n>(c, M(1.0f) * a, arr(a), "I*A");
    }
    static void vectors(Case& c) {
        M a = matGen<n>(c, "A"); V v = vFin<V>(c, c.coin() ? 6 : 28, "v"), r = a * v, s = v * a; auto A = dbl(a); auto x = dbl(v);
        for (int i = 0; i < n; ++i) { double p = 0, q = 0, ap = 0, aq = 0; for (int k = 0; k < n; ++k) { p += A[k * n + i] * x[k]; ap += std::fabs(A[k * n + i] * x[k]); q += A[i * n + k] * x[k]; aq += std::fabs(A[i * n + k] * x[k]); }
            near(c, at(r, i), p, (n + 1) * EPS * ap + 1e-38, "A*v", i); near(c, at(s, i), q, (n + 1) * EPS * aq + 1e-38, "v*A", i); }
    }
    static void quotient(Case& c) {
        Inv<n> iv; M b = invertible<n>(c, iv, "B"), a = matGen<n>(c, "A"); DM<n> A = dbl(a), w = mmul<n>(A, iv.inv), t = mmul<n>(absd(A), iv.tol), u = mmul<n>(absd(A), absd(iv.inv));
        for (int i = 0; i < n * n; ++i) t[i] += (n + 1) * EPS * u[i] + 1e-37;
        nearMat<n>(c, a / b, w, t, "A/B"); M r = a; r /= b; nearMat<n>(c, r, w, t, "A/=B");
        DM<n> id = mident<n>(), B = dbl(b); t = mmul<n>(absd(B), iv.tol); u = mmul<n>(absd(B), absd(iv.inv)); for (int i = 0; i < n * n; ++i) t[i] += (n + 1) * EPS * u[i];
        r = b; r /= r; nearMat<n>(c, r, id, t, "B/=B");
        V v = vFin<V>(c, c.coin() ? 6 : 20, "v"), p = b / v, q = v / b; auto x = dbl(v);
        for (int i = 0; i < n; ++i) { double s = 0, z = 0, ts = 0, tz = 0; for (int k = 0; k < n; ++k) { s += iv.inv[k * n + i] * x[k]; ts += std::fabs(x[k]) * (iv.tol[k * n + i] + (n + 1) * EPS * std::fabs(iv.inv[k * n + i])); z += iv.inv[i * n + k] * x[k]; tz += std::fabs(x[k]) * (iv.tol[i * n + k] + (n + 1) * EPS * std::fabs(iv.inv[i * n + k])); }
            near(c, at(p, i), s, ts + 1e-37, "B/v", i); near(c, at(q, i), z, tz + 1e-37, "v/B", i); }
    }
    // a history over three matrices and a vector against a double model; small integers keep everything exact
    static void history(Case& c) {
        M r[3]; DM<n> m[3]; auto gi = [&](M& x) { Arr<M> a; for (auto& e : a) e = float(c.range(-2, 2)); x = mk<M>(a); };
        for (int i = 0; i < 3; ++i) { gi(r[i]); shown(c, "R", r[i]); m[i] = dbl(r[i]); c.payload(mixh(1, bitsOf(at(r[i], 0)) + 3 * bitsOf(at(r[i], 1)) + uint64_t(i))); }
        unsigned steps = 1 + unsigned(c.below(8));
        for (unsigned s = 0; s < steps; ++s) {
            unsigned d = unsigned(c.below(3)), x = unsigned(c.below(3)), y = unsigned(c.below(3)), k = unsigned(c.below(9)); float f = float(c.range(-2, 2)); if (c.verbose) c.say(fmt("[%u d%u x%u y%u %g]", k, d, x, y, f));
            DM<n> w = m[d];
            if (k == 2 || k == 5) { for (double e : mmul<n>(absd(m[k == 2 ? x : d]), absd(m[k == 2 ? y : x]))) if (e > 4194304) return; }     // beyond exactness: stop
            switch (k) {
            case 0: w = plus(m[x], m[y]); r[d] = r[x] + r[y]; break;
            case 1: w = minus(m[x], m[y]); r[d] = r[x] - r[y]; break;
            case 2: w = mmul<n>(m[x], m[y]); r[d] = r[x] * r[y]; break;
            case 3: w = plus(m[d], m[x]); r[d] += r[x]; break;
            case 4: w = minus(m[d], m[x]); r[d] -= r[x]; break;
            case 5: w = mmul<n>(m[d], m[x]); r[d] *= r[x]; break;
            case 6: w = scaled(m[x], f); r[d] = c.coin() ? r[x] * f : f * r[x]; break;
            case 7: w = mtrans<n>(m[x]); r[d] = zcm::transpose(r[x]); break;
            case 8: { unsigned i = unsigned(c.below(n)), j = unsigned(c.below(n)); w[i * n + j] = f; r[d][i][j] = f; break; }
            }
            m[d] = w; double big = 0; for (double e : w) big = std::max(big, std::fabs(e)); if (big > 4194304) return;     // beyond exactness: stop
            for (int i = 0; i < 3; ++i) for (unsigned j = 0; j < n * n; ++j) { ++c.oracle; if (at(r[i], j) != float(m[i][j])) throw Fail{fmt("step %u kind %u: R%d element %u is %g, model %g", s, k, i, j, at(r[i], j), m[i][j])}; }
        }
    }
};
#define ALL(n) LAW_W(element##n, 3) { L<n>::elementwise(c); } LAW_W(equality##n, 1) { L<n>::equality(c); } LAW_W(product##n, 4) { L<n>::product(c); } LAW_W(vectors##n, 4) { L<n>::vectors(c); } LAW_W(quotient##n, 4) { L<n>::quotient(c); } LAW_W(history##n, 2) { L<n>::history(c); }
ALL(2) ALL(3) ALL(4)
