// Determinants, LU decomposition, linear solver and inverse.
#include "hv.h"
struct K {
    double r, i;
};
static K operator+(K a, K b) { return {a.r + b.r, a.i + b.i}; }
static K operator-(K a, K b) { return {a.r - b.r, a.i - b.i}; }
static K operator*(K a, K b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
template <typename T> static K k(const T &x) { return {(double)x, 0}; }
template <typename T> static K k(const Complex<T> &x) { return {(double)x.re, (double)x.im}; }
static void same(K a, K b, const char *w) {
    hs_eq_f64(a.r, b.r, w);
    hs_eq_f64(a.i, b.i, w);
}
template <typename T> struct sy {
    static T get(const char *n, int i) {
        if (std::is_integral<T>::value) return (T)hs_int(n, i, -9, 9);
        return (T)hs_f64(n, i, -100, 100);
    }
    static T con(int a, int b) { return (T)a; }
};
template <typename T> struct sy<Complex<T>> {
    static Complex<T> get(const char *n, int i) { return Complex<T>(sy<T>::get(n, 2 * i), sy<T>::get(n, 2 * i + 1)); }
    static Complex<T> con(int a, int b) { return Complex<T>((T)a, (T)b); }
};
// determinant of rows r.. and the columns not in used, by definition
template <int n> static K det0(K (&a)[n][n], int r, int used) {
    if (r == n) return {1, 0};
    K s = {0, 0};
    int sign = 1;
    for (int c = 0; c < n; c++) {
        if (used & (1 << c)) continue;
        K t = a[r][c] * det0(a, r + 1, used | (1 << c));
        s = sign > 0 ? s + t : s - t;
        sign = -sign;
    }
    return s;
}
// a matrix with the elements of the mask symbolic
template <int n, typename T> static Matrix<n, n, T> mat(long mask, int seed) {
    Matrix<n, n, T> a;
    unsigned q = 12345 + 77 * seed;
    for (int i = 0; i < n * n; i++) {
        q = q * 1103515245u + 12345u;
        int u = (int)((q >> 16) % 7) - 3, v = (int)((q >> 20) % 5) - 2;
        if (seed & 1 && i % (n + 1) == 0) u = v = 0; // zero diagonal: pivoting is needed
        a.c[i] = (mask >> i) & 1 ? sy<T>::get("a", i) : sy<T>::con(u, v);
    }
    return a;
}
template <int n, typename T> static void dets(long mask, int seed) {
    auto a = mat<n, T>(mask, seed);
    K A[n][n];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) A[i][j] = k(a.c[i * n + j]);
    K d = det0<n>(A, 0, 0);
    same(k(a.det()), d, "det()");
    same(k(det(a)), d, "det");
    same(k(a.det_laplace()), d, "det_laplace()");
    same(k(det_laplace(a)), d, "det_laplace");
    if (!std::is_integral<hila::arithmetic_type<T>>::value) {
        same(k(a.det_lu()), d, "det_lu()");
        same(k(det_lu(a)), d, "det_lu");
    }
    hs_reach("dets");
}
template <int n> static int idet(int (&a)[n][n], int r, int used) {
    if (r == n) return 1;
    int s = 0, sign = 1;
    for (int c = 0; c < n; c++) {
        if (used & (1 << c)) continue;
        s += sign * a[r][c] * idet(a, r + 1, used | (1 << c));
        sign = -sign;
    }
    return s;
}
template <int n> static void idets(long mask, int seed) {
    auto a = mat<n, int>(mask, seed);
    int A[n][n];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) A[i][j] = a.c[i * n + j];
    int d = idet(A, 0, 0);
    hs_eq_i64(a.det(), d, "det() of integers");
    hs_eq_i64(det(a), d, "det of integers");
    hs_eq_i64(a.det_laplace(), d, "det_laplace() of integers");
    hs_eq_i64(det_laplace(a), d, "det_laplace of integers");
    hs_reach("dets");
}
template <int n, typename T, typename U> static void solve(long mask, int seed) {
    auto a = mat<n, T>(mask, seed);
    K A[n][n];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) A[i][j] = k(a.c[i * n + j]);
    K d = det0<n>(A, 0, 0);
    hs_assume((d.r != 0) | (d.i != 0));
    Vector<n, U> b;
    Matrix<n, 2, U> m;
    for (int i = 0; i < n; i++) {
        b.e(i) = sy<U>::get("b", i);
        m.e(i, 0) = b.e(i);
        m.e(i, 1) = sy<U>::con(i + 1, 2 - i);
    }
    auto x = a.LU_solve(b);
    for (int i = 0; i < n; i++) {
        K s = {0, 0};
        for (int j = 0; j < n; j++) s = s + A[i][j] * k(x.e(j));
        same(s, k(b.e(i)), "a * LU_solve(b)");
    }
    if constexpr (hila::is_assignable<U &, hila::type_mul<T, U>>::value) { // the tree refuses others
        auto y = a.LU_solve(m);
        for (int c = 0; c < 2; c++)
            for (int i = 0; i < n; i++) {
                K s = {0, 0};
                for (int j = 0; j < n; j++) s = s + A[i][j] * k(y.e(j, c));
                same(s, k(m.e(i, c)), "a * LU_solve(matrix)");
            }
    }
    hs_reach("solve");
}
template <int n, typename T> static void invert(long mask, int seed) {
    auto a = mat<n, T>(mask, seed);
    K A[n][n];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) A[i][j] = k(a.c[i * n + j]);
    K d = det0<n>(A, 0, 0);
    hs_assume((d.r != 0) | (d.i != 0));
    auto v = a.LU_invert();
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            K s = {0, 0}, t = {0, 0}, one = {i == j ? 1.0 : 0.0, 0};
            for (int l = 0; l < n; l++) {
                s = s + A[i][l] * k(v.e(l, j));
                t = t + k(v.e(i, l)) * A[l][j];
            }
            same(s, one, "a * inverse");
            same(t, one, "inverse * a");
        }
    auto lu = a.LU_decompose();
    bool seen[n];
    for (int i = 0; i < n; i++) seen[i] = false;
    for (int i = 0; i < n; i++) {
        hs_check(lu.P[i] >= 0 && lu.P[i] < n && !seen[lu.P[i]], "LU_decompose(): permutation");
        seen[lu.P[i]] = true;
        for (int j = 0; j < n; j++) {
            K s = {0, 0};
            for (int l = 0; l <= i && l <= j; l++) s = s + (l == i ? K{1, 0} : k(lu.LU.e(i, l))) * k(lu.LU.e(l, j));
            same(s, A[lu.P[i]][j], "L * U");
        }
    }
    hs_reach("invert");
}
// inverse of diagonal + constant
template <int n, typename T, typename C> static void constant() {
    DiagonalMatrix<n, T> D;
    C c = sy<C>::get("c", 0);
    K d = {0, 0}, p = {1, 0};
    bool ok = true;
    for (int i = 0; i < n; i++) {
        D.e(i) = sy<T>::get("d", i);
        K x = k(D.e(i));
        ok = ok & ((x.r != 0) | (x.i != 0));
    }
    hs_assume(ok);
    // det (D + c) = prod d_i + c sum_i prod_{j != i} d_j
    for (int i = 0; i < n; i++) {
        K q = k(c);
        for (int j = 0; j < n; j++) {
            if (j != i) q = q * k(D.e(j));
        }
        d = d + q;
        p = p * k(D.e(i));
    }
    d = d + p;
    hs_assume((d.r != 0) | (d.i != 0));
    auto m = hila::invert_diagonal_plus_constant_matrix(D, c);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            K s = {0, 0};
            for (int l = 0; l < n; l++) s = s + (i == l ? k(D.e(i)) + k(c) : k(c)) * k(m.e(l, j));
            same(s, {i == j ? 1.0 : 0.0, 0}, "inverse of diagonal plus constant");
        }
    hs_reach("constant");
}
typedef Complex<double> Z;
extern "C" void hs_main() {
    long mask = hs_parami("mask", -1);
    int seed = (int)hs_parami("seed", 0);
    switch (hs_parami("what", 0)) {
    case 0: dets<1, double>(mask, seed); dets<2, double>(mask, seed); dets<1, Z>(mask, seed); break;
    case 1: dets<2, Z>(mask, seed); break;
    case 2: dets<3, double>(mask, seed); break;
    case 3: dets<3, Z>(mask, seed); break;
    case 4: dets<4, double>(mask, seed); break;
    case 5: dets<4, Z>(mask, seed); break;
    case 6: dets<5, double>(mask, seed); break;
    case 7: dets<5, Z>(mask, seed); break;
    case 8: idets<1>(mask, seed); idets<2>(mask, seed); break;
    case 9: idets<5>(mask, seed); break;
    case 11: idets<3>(mask, seed); break;
    case 12: idets<4>(mask, seed); break;
    case 10: dets<3, float>(mask, seed); break;
    case 20: solve<2, double, double>(mask, seed); break;
    case 21: solve<2, Z, Z>(mask, seed); break;
    case 22: solve<3, double, double>(mask, seed); break;
    case 23: solve<3, Z, Z>(mask, seed); break;
    case 24: solve<4, double, double>(mask, seed); break;
    case 25: solve<2, float, float>(mask, seed); break;
    case 26: solve<2, Z, double>(mask, seed); break;
    case 27: solve<2, double, Z>(mask, seed); break;
    case 40: invert<2, double>(mask, seed); break;
    case 41: invert<2, Z>(mask, seed); break;
    case 42: invert<3, double>(mask, seed); break;
    case 43: invert<3, Z>(mask, seed); break;
    case 44: invert<4, double>(mask, seed); break;
    case 45: invert<2, float>(mask, seed); break;
    case 60: constant<2, double, double>(); break;
    case 61: constant<3, double, double>(); break;
    case 62: constant<2, Z, Z>(); break;
    case 63: constant<2, double, Z>(); break;
    }
    hs_reach("end");
}
