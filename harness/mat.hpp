// Matrix references in double with error bounds that follow the sizes of the terms actually summed.
#pragma once
#include "gen.hpp"
namespace pbt {
template<int n> DM<n> md(const typename MatOf<n>::M& m) { return dbl(m); }
// determinant and permanent of |a| by expansion; a is column-major k x k packed in rows of the given stride
inline double detRec(const double* a, int k, bool perm) {      // row-major k x k
    if (k == 1) return a[0];
    double s = 0, sub[9];
    for (int c = 0; c < k; ++c) {
        int p = 0; for (int i = 1; i < k; ++i) for (int j = 0; j < k; ++j) if (j != c) sub[p++] = a[i * k + j];
        s += (perm || !(c & 1) ? 1 : -1) * a[c] * detRec(sub, k - 1, perm);
    }
    return s;
}
template<int n> double det(const DM<n>& a) { return detRec(a.data(), n, false); }
template<int n> double perm(const DM<n>& a) { DM<n> b = absd(a); return detRec(b.data(), n, true); }
// adjugate: adj(A) A = det(A) I;  P holds the permanents of the same minors
template<int n> void adj(const DM<n>& a, DM<n>& A, DM<n>& P) {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        double sub[9], ab[9]; int p = 0;
        for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) if (c != i && r != j) { sub[p] = a[c * n + r]; ab[p] = std::fabs(sub[p]); ++p; }
        // cofactor of element (column i, row j) lands at (column j, row i)
        A[j * n + i] = ((i + j) & 1 ? -1 : 1) * detRec(sub, n - 1, false); P[j * n + i] = detRec(ab, n - 1, true);
    }
}
template<int n> void nearMat(Case& c, const typename MatOf<n>::M& got, const DM<n>& want, const DM<n>& tol, const char* what) {
    for (unsigned i = 0; i < unsigned(n * n); ++i) { ++c.oracle; double g = at(got, i);
        if (!(std::fabs(g - want[i]) <= tol[i])) throw Fail{fmt("%s column %u row %u: got %.9g expected %.9g, off by %.3g, tolerance %.3g", what, i / n, i % n, g, want[i], std::fabs(g - want[i]), tol[i])}; }
}
template<int n> void eqMat(Case& c, const typename MatOf<n>::M& got, const Arr<typename MatOf<n>::M>& want, const char* what) { for (unsigned i = 0; i < unsigned(n * n); ++i) eqVal(c, at(got, i), want[i], what, int(i)); }
// a matrix whose inverse is determined by its float entries: perm/|det| bounded
template<int n> struct Inv { DM<n> inv, tol; double det, perm; };
template<int n> typename MatOf<n>::M invertible(Case& c, Inv<n>& out, const char* name, double limit = 3e3) {
    using M = typename MatOf<n>::M; M m = matGen<n>(c, name); DM<n> a = dbl(m);
    double u = 0; for (double x : a) u = std::max(u, std::fabs(x)); if (u == 0) u = 1;
    if (perm<n>(a) > limit * std::fabs(det<n>(a)) || det<n>(a) == 0) {     // boost the diagonal until it is well conditioned
        for (int k = 0; k < n; ++k) { double s = 0; for (int j = 0; j < n; ++j) s += std::fabs(double(at(m, unsigned(k * n + j)))); put(m, unsigned(k * n + k), at(m, unsigned(k * n + k)) < 0 ? float(-2 * s - u) : float(2 * s + u)); }
        a = dbl(m); shown(c, name, m);
    }
    out.det = det<n>(a); out.perm = perm<n>(a); c.require(out.det != 0 && out.perm <= limit * std::fabs(out.det));
    DM<n> A, P; adj<n>(a, A, P);
    for (int i = 0; i < n * n; ++i) { out.inv[i] = A[i] / out.det; out.tol[i] = 24 * EPS * (P[i] + out.perm / std::fabs(out.det) * std::fabs(A[i])) / std::fabs(out.det) + 1e-37; }
    return m;
}
} // namespace pbt
