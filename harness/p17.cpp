// P17: transpose, determinant, inverse, adjugate and their transposed forms.
#include "mat.hpp"
using namespace pbt;
template<int n> struct L {
    using M = typename MatOf<n>::M;
    static Arr<M> tr(const Arr<M>& a) { Arr<M> r; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i * n + j] = a[j * n + i]; return r; }
    static void trans(Case& c) { M a = vAny<M>(c, "A"); eqMat<n>(c, zcm::transpose(a), tr(arr(a)), "transpose"); eqMat<n>(c, zcm::transpose(zcm::transpose(a)), arr(a), "transpose twice"); }
    static void dets(Case& c) {
        M a = matGen<n>(c, "A"); DM<n> A = dbl(a);
        if (c.chance(4)) { unsigned i = unsigned(c.below(n)), j = (i + 1) % n; for (int k = 0; k < n; ++k) put(a, i * n + k, at(a, j * n + k) * 2.0f); shown(c, "A singular", a); A = dbl(a); }
        near(c, zcm::determinant(a), det<n>(A), 24 * EPS * perm<n>(A) + 1e-38, "determinant"); near(c, zcm::determinant(zcm::transpose(a)), det<n>(A), 24 * EPS * perm<n>(A) + 1e-38, "determinant of the transpose");
    }
    static void adjs(Case& c) {
        M a = matGen<n>(c, "A"); DM<n> W, P; adj<n>(dbl(a), W, P); for (auto& x : P) x = 16 * EPS * x + 1e-38;
        nearMat<n>(c, zcm::adjugate(a), W, P, "adjugate"); nearMat<n>(c, zcm::adjugateTranspose(a), mtrans<n>(W), mtrans<n>(P), "adjugateTranspose");
    }
    static void invs(Case& c) {
        Inv<n> iv; M a = invertible<n>(c, iv, "A");
        nearMat<n>(c, zcm::inverse(a), iv.inv, iv.tol, "inverse"); nearMat<n>(c, zcm::inverseTranspose(a), mtrans<n>(iv.inv), mtrans<n>(iv.tol), "inverseTranspose");
    }
    static void exact(Case& c) {        // scaled permutations have exactly representable inverses
        int p[4]; for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[c.below(i + 1)]);
        Arr<M> a, b; a.fill(0); b.fill(0); for (int i = 0; i < n; ++i) { float s = std::ldexp(c.coin() ? -1.0f : 1.0f, int(c.range(-4, 4))); c.payload(bitsOf(s) + unsigned(i)); a[i * n + p[i]] = s; b[p[i] * n + i] = 1 / s; }
        M m = shown(c, "A", mk<M>(a)); eqMat<n>(c, zcm::inverse(m), b, "inverse of a scaled permutation"); eqMat<n>(c, zcm::inverseTranspose(m), tr(b), "inverseTranspose of a scaled permutation");
    }
};
#define ALL(n) LAW_W(transpose##n, 1) { L<n>::trans(c); } LAW_W(det##n, 3) { L<n>::dets(c); } LAW_W(adj##n, 3) { L<n>::adjs(c); } LAW_W(inv##n, 4) { L<n>::invs(c); } LAW_W(exact##n, 1) { L<n>::exact(c); }
ALL(2) ALL(3) ALL(4)
