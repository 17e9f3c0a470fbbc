// Projection to the unitary group.
#include "hv.h"
#ifndef NC
#define NC 2
#endif
static const int N = NC;
typedef double Re;
#define EQ(a, b, w) hs_eq_f64(a, b, w)
struct K {
    Re r, i;
};
static K operator+(K a, K b) { return {a.r + b.r, a.i + b.i}; }
static K operator-(K a, K b) { return {a.r - b.r, a.i - b.i}; }
static K operator*(K a, K b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static K cj(K a) { return {a.r, -a.i}; }
struct M {
    K v[N][N];
};
template <typename T> static M km(const SU<N, T> &a) {
    M r;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) r.v[i][j] = {(Re)a.c[i * N + j].re, (Re)a.c[i * N + j].im};
    return r;
}
static K det(const M &a, const int *rows, int n, unsigned used) {
    if (n == 0) return {1, 0};
    K s = {0, 0};
    int sign = 1;
    for (int j = 0; j < N; j++)
        if (!(used & (1u << j))) {
            K t = a.v[*rows][j] * det(a, rows + 1, n - 1, used | (1u << j));
            s = sign > 0 ? s + t : s - t;
            sign = -sign;
        }
    return s;
}
static K det(const M &a) {
    static const int rows[] = {0, 1, 2, 3, 4};
    return det(a, rows, N, 0);
}
static void unitary(const M &a, const char *w) {
    for (int i = 0; i < N; i++)
        for (int j = 0; j <= i; j++) {
            K s = {0, 0};
            for (int l = 0; l < N; l++) s = s + a.v[i][l] * cj(a.v[j][l]);
            EQ(s.r, i == j, w);
            EQ(s.i, 0, w);
        }
}
static void unit(const M &a, const char *w) {
    K d = det(a);
    EQ(d.r, 1, w);
    EQ(d.i, 0, w);
}
static void same(const M &a, const M &b, const char *w) {
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) EQ(a.v[i][j].r, b.v[i][j].r, w), EQ(a.v[i][j].i, b.v[i][j].i, w);
}
// a matrix with the real numbers of the mask symbolic, the others small integers
template <typename T> static SU<N, T> matrix(long mask, int seed) {
    SU<N, T> a;
    for (int i = 0; i < 2 * N * N; i++) {
        double x = ((i + seed) * (i + 3 * seed + 2) + i / 3) % 7 - 3;
        if (mask >> i & 1) x = hs_f64("m", i, -10, 10);
        if (i % 2) a.c[i / 2].im = x;
        else a.c[i / 2].re = x;
    }
    return a;
}
// a special unitary matrix: 2x2 unitary matrices with symbolic elements in the rows p, q
template <typename T> static SU<N, T> special(int n) {
    SU<N, T> u;
    u = 1;
    int k = 0;
    for (int p = 0; p < N && k < n; p++)
        for (int q = p + 1; q < N && k < n; q++, k++) {
            double a = hs_f64("a", k, -1, 1), b = hs_f64("b", k, -1, 1), c = hs_f64("c", k, -1, 1), r = 1 - a * a - b * b - c * c;
            hs_assume(r > 0);
            double d = sqrt(r);
            for (int j = 0; j < N; j++) {
                Complex<T> x = u.e(p, j), y = u.e(q, j);
                u.e(p, j) = Complex<T>(d, c) * x + Complex<T>(b, a) * y;
                u.e(q, j) = Complex<T>(-b, a) * x + Complex<T>(d, -c) * y;
            }
        }
    return u;
}
template <typename T> static void generic(long mask, int seed, bool dets) {
    SU<N, T> u = matrix<T>(mask, seed);
    M b = km(u);
    K d = det(b);
    hs_assume(d.r * d.r + d.i * d.i > 0.001);
    SU<N, T> v = u;
    v.make_unitary();
    M m = km(v);
    unitary(m, "make_unitary gives orthonormal rows");
    // the first k rows span the same space: row k is orthogonal to the rows before it and has a positive component along the old row k
    for (int k = 0; k < N; k++) {
        K s = {0, 0};
        for (int l = 0; l < N; l++) s = s + b.v[k][l] * cj(m.v[k][l]);
        EQ(s.i, 0, "the old row has a real component along the new one");
        for (int j = k + 1; j < N; j++) {
            K t = {0, 0};
            for (int l = 0; l < N; l++) t = t + b.v[k][l] * cj(m.v[j][l]);
            EQ(t.r, 0, "the new rows span the same spaces");
            EQ(t.i, 0, "the new rows span the same spaces");
        }
    }
    if (dets) {
        u.reunitarize();
        m = km(u);
        unitary(m, "reunitarize gives orthonormal rows");
        unit(m, "reunitarize gives a unit determinant");
    }
}
template <typename T> static void unchanged(int n) {
    SU<N, T> u = special<T>(n), v = u;
    M a = km(u);
    unitary(a, "special unitary matrix");
    unit(a, "special unitary matrix");
    u.reunitarize();
    same(km(u), a, "a special unitary matrix is not changed");
    v.fix_det();
    same(km(v), a, "fix_det does not change a special unitary matrix");
}
// determinant of a unitary matrix is divided out of all elements alike
template <typename T> static void phases(int n) {
    SU<N, T> u = special<T>(n);
    double x = hs_f64("x", 0, -1, 1), r = 1 - x * x;
    hs_assume(r > 0);
    double y = hs_parami("neg", 0) ? -sqrt(r) : sqrt(r);
    for (int j = 0; j < N; j++) u.e(0, j) *= Complex<T>(x, y);
    M a = km(u);
    u.fix_det();
    M b = km(u);
    unitary(b, "fix_det keeps the matrix unitary");
    unit(b, "fix_det gives a unit determinant");
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) {
            K s = a.v[0][0] * b.v[i][j] - a.v[i][j] * b.v[0][0];
            EQ(s.r, 0, "fix_det multiplies all elements alike");
            EQ(s.i, 0, "fix_det multiplies all elements alike");
        }
}
template <typename T> static void random_matrix() {
    hs_rng_mode(1, hs_rank());
    SU<N, T> u;
    u.random(1);
    M m = km(u);
    unitary(m, "random matrix is unitary");
    unit(m, "random matrix has a unit determinant");
}
// every link of a gauge field
static void gauge() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    GaugeField<SU<N, double>> U, V;
    double s = hs_f64("m", 0, 0.5, 2), t = hs_f64("m", 1, 0.5, 2);
    foralldir(d) {
        V[d] = 0;
        onsites(ALL) {
            V[d][X] = 1 + (int)d + X.coordinate(e_x);
            V[d][X].e(0, 1) = Complex<double>(s, t * X.coordinate(e_y));
        }
        U[d] = V[d];
    }
    U.reunitarize_gauge();
    foralldir(d) for (unsigned i = 0; i < hv_sites(); i++) {
        auto v = V[d].get_value_at(i);
        v.reunitarize();
        same(km(U[d].get_value_at(i)), km(v), "every link is reunitarized");
    }
}
extern "C" void hs_main() {
    int n = hs_parami("n", 1), seed = hs_parami("seed", 0);
    long mask = hs_parami("mask", 0) | (long)hs_parami("mask2", 0) << 24;
    switch (hs_parami("what", 0)) {
    case 0: generic<double>(mask, seed, true); break;
    case 1: generic<double>(mask, seed, false); break;
    case 2: unchanged<double>(n); break;
    case 3: phases<double>(n); break;
    case 4: random_matrix<double>(); break;
    case 5: gauge(); break;
    case 6: generic<float>(mask, seed, true); unchanged<float>(n); break;
    }
    hs_reach("end");
}
