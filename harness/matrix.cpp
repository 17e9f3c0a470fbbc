// Matrices, vectors, arrays and diagonal matrices: every operation against its component definition.
#include "hv.h"
#ifdef INTS // matrices of integers
typedef int Re;
#define EQ(a, b, w) hs_eq_i64(a, b, w)
#else
typedef double Re;
#define EQ(a, b, w) hs_eq_f64(a, b, w)
#endif
struct K {
    Re r, i;
};
static K operator+(K a, K b) { return {a.r + b.r, a.i + b.i}; }
static K operator-(K a, K b) { return {a.r - b.r, a.i - b.i}; }
static K operator-(K a) { return {-a.r, -a.i}; }
static K operator*(K a, K b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static K operator/(K a, K b) {
    Re n = b.r * b.r + b.i * b.i;
    return {(a.r * b.r + a.i * b.i) / n, (a.i * b.r - a.r * b.i) / n};
}
static K cj(K a) { return {a.r, -a.i}; }
static Re n2(K a) { return a.r * a.r + a.i * a.i; }
template <typename T> static K k(const T &x) { return {(Re)x, 0}; }
template <typename T> static K k(const Complex<T> &x) { return {(Re)x.re, (Re)x.im}; }
template <typename X> static void same(const X &x, K y, const char *w) {
    K z = k(x);
    EQ(z.r, y.r, w);
    EQ(z.i, y.i, w);
}
// symbolic values
static double bound = 1000;
template <typename T> struct sy {
    static T get(const char *n, int i) {
        if (std::is_integral<T>::value) return (T)hs_int(n, i, -100, 100);
        return (T)hs_f64(n, i, -bound, bound);
    }
};
template <typename T> struct sy<Complex<T>> {
    static Complex<T> get(const char *n, int i) { return Complex<T>(sy<T>::get(n, 2 * i), sy<T>::get(n, 2 * i + 1)); }
};
template <int n, int m, typename T> static Matrix<n, m, T> mat(const char *w) {
    Matrix<n, m, T> a;
    for (int i = 0; i < n * m; i++) a.c[i] = sy<T>::get(w, i);
    return a;
}
template <int n, typename T> static DiagonalMatrix<n, T> dia(const char *w) {
    DiagonalMatrix<n, T> a;
    for (int i = 0; i < n; i++) a.c[i] = sy<T>::get(w, i);
    return a;
}
template <int n, int m> struct KM {
    K v[n][m];
};
template <int n, int m, typename T, typename MT> static KM<n, m> km(const Matrix_t<n, m, T, MT> &a) {
    KM<n, m> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) r.v[i][j] = k(a.c[i * m + j]);
    return r;
}
template <int n, int m, typename T> static KM<n, m> km(const Array<n, m, T> &a) {
    KM<n, m> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) r.v[i][j] = k(a.c[i * m + j]);
    return r;
}
template <int n, typename T> static KM<n, n> km(const DiagonalMatrix<n, T> &a) {
    KM<n, n> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) r.v[i][j] = i == j ? k(a.c[i]) : K{0, 0};
    return r;
}
template <typename A, int n, int m> static void is(const A &a, const KM<n, m> &b, const char *w) {
    static_assert(A::rows() == n && A::columns() == m, "shape");
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) same(a.e(i, j), b.v[i][j], w);
}
template <typename A, int n, int m> static void isarr(const A &a, const KM<n, m> &b, const char *w) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) same(a.e(i, j), b.v[i][j], w);
}
#define EW(name, expr)                                                                             \
    template <int n, int m> static KM<n, m> name(const KM<n, m> &a, const KM<n, m> &b) {           \
        KM<n, m> r;                                                                                \
        for (int i = 0; i < n; i++)                                                                \
            for (int j = 0; j < m; j++) { K x = a.v[i][j], y = b.v[i][j]; r.v[i][j] = (expr); }    \
        return r;                                                                                  \
    }
EW(add, x + y)
EW(sub, x - y)
EW(emul, x * y)
EW(ediv, x / y)
template <int n, int m> static KM<n, m> all(K s) {
    KM<n, m> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) r.v[i][j] = s;
    return r;
}
template <int n> static KM<n, n> dg(K s) {
    KM<n, n> r = all<n, n>({0, 0});
    for (int i = 0; i < n; i++) r.v[i][i] = s;
    return r;
}
template <int n, int m, int p> static KM<n, p> mul(const KM<n, m> &a, const KM<m, p> &b) {
    KM<n, p> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < p; j++) {
            r.v[i][j] = {0, 0};
            for (int l = 0; l < m; l++) r.v[i][j] = r.v[i][j] + a.v[i][l] * b.v[l][j];
        }
    return r;
}
template <int n, int m> static KM<m, n> tr(const KM<n, m> &a, bool c) {
    KM<m, n> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) r.v[j][i] = c ? cj(a.v[i][j]) : a.v[i][j];
    return r;
}
template <typename A> static bool zero(A a) { return a == 0; }
template <int n, int m> static K total(const KM<n, m> &a) {
    K s = {0, 0};
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) s = s + a.v[i][j];
    return s;
}
template <int n, int m> static Re norm2(const KM<n, m> &a) {
    Re s = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) s += n2(a.v[i][j]);
    return s;
}
template <int n, int m> static bool equal(const KM<n, m> &a, const KM<n, m> &b) {
    bool r = true;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) r = r & (a.v[i][j].r == b.v[i][j].r) & (a.v[i][j].i == b.v[i][j].i);
    return r;
}
// one matrix of any shape
template <int n, int m, typename T> static void shape() {
    auto a = mat<n, m, T>("a");
    Matrix<n, m, T> c;
    auto A = km(a);
    is(-a, sub(all<n, m>({0, 0}), A), "-a");
    is(+a, A, "+a");
    is(a.conj(), tr(tr(A, false), true), "conj()");
    is(conj(a), tr(tr(A, false), true), "conj");
    is(a.transpose(), tr(A, false), "transpose()");
    is(transpose(a), tr(A, false), "transpose");
    is(a.dagger(), tr(A, true), "dagger()");
    is(dagger(a), tr(A, true), "dagger");
    is(a.adjoint(), tr(A, true), "adjoint()");
    is(adjoint(a), tr(A, true), "adjoint");
    Re l1 = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            same(a.e(i, j), A.v[i][j], "e(i, j)");
            same(a.real().e(i, j), {A.v[i][j].r, 0}, "real()");
            same(imag(a).e(i, j), {A.v[i][j].i, 0}, "imag");
            Re x = (Re)a.abs().e(i, j);
            hs_check(x >= 0, "abs() negative");
            EQ(x * x, n2(A.v[i][j]), "abs()");
            EQ((Re)abs(a).e(i, j), x, "abs");
            l1 += x;
            same(a.row(i).e(j), A.v[i][j], "row()");
            same(a.column(j).e(i), A.v[i][j], "column()");
        }
    EQ((Re)a.squarenorm(), norm2(A), "squarenorm()");
    EQ((Re)squarenorm(a), norm2(A), "squarenorm");
#ifndef INTS
    double no = (Re)a.norm();
    hs_check(no >= 0, "norm() negative");
    EQ(no * no, norm2(A), "norm()");
    EQ((Re)norm(a), no, "norm");
#endif
    EQ((Re)a.norm_L1(), l1, "norm_L1()");
    same(a.sum(), total(A), "sum()");
    Re mx = (Re)a.max_abs(), mn = (Re)a.min_abs();
    bool fx = false, fn = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            Re x = (Re)a.abs().e(i, j);
            hs_check((x <= mx) & (mn <= x), "max_abs(), min_abs()");
            fx |= mx == x;
            fn |= mn == x;
        }
    hs_check(fx & fn, "max_abs(), min_abs() is no element");
    // rows, columns, permutations
    auto rw = mat<1, m, T>("row");
    auto cl = mat<n, 1, T>("col");
    for (int p = 0; p < n; p++) {
        c = a;
        c.set_row(p, rw);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) same(c.e(i, j), i == p ? k(rw.c[j]) : A.v[i][j], "set_row()");
    }
    for (int p = 0; p < m; p++) {
        c = a;
        c.set_column(p, cl);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) same(c.e(i, j), j == p ? k(cl.c[i]) : A.v[i][j], "set_column()");
    }
    Vector<m, int> pm;
    for (int s = 0; s < m; s++) {
        for (int j = 0; j < m; j++) pm.e(j) = (2 * s + (s % 2 ? j : m - j)) % m;
        auto q = a.permute_columns(pm);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) same(q.e(i, j), A.v[i][pm.e(j)], "permute_columns()");
    }
    Vector<n, int> pn;
    for (int s = 0; s < n; s++) {
        for (int j = 0; j < n; j++) pn.e(j) = (2 * s + (s % 2 ? j : n - j)) % n;
        auto q = a.permute_rows(pn);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) same(q.e(i, j), A.v[pn.e(i)][j], "permute_rows()");
    }
    // assignments
    c = a; is(c, A, "c = a");
    c = nullptr; is(c, all<n, m>({0, 0}), "c = nullptr");
    is(Matrix<n, m, T>(nullptr), all<n, m>({0, 0}), "Matrix(nullptr)");
    T s = sy<T>::get("s", 0);
    c.fill(s); is(c, all<n, m>(k(s)), "fill()");
    Matrix<n, m, T> d(a); is(d, A, "copy");
    is(a.asArray().asMatrix(), A, "asArray().asMatrix()");
    c = a; c += c; is(c, add(A, A), "c += c");
    c = a; c -= c; is(c, all<n, m>({0, 0}), "c -= c");
    c = a; c *= c.e(0, 0); is(c, emul(A, all<n, m>(A.v[0][0])), "c *= c.e(0, 0)");
    c = a; c *= c.e(n - 1, m - 1); is(c, emul(A, all<n, m>(A.v[n - 1][m - 1])), "c *= c.e(last)");
    hs_reach("shape");
}
// two matrices of any shape and the numbers s of type S
template <int n, int m, typename T, typename U, typename S> static void pair() {
    auto a = mat<n, m, T>("a");
    auto b = mat<n, m, U>("b");
    auto A = km(a), B = km(b);
    S s = sy<S>::get("s", 0);
    K z = k(s);
    is(a + b, add(A, B), "a + b");
    is(a - b, sub(A, B), "a - b");
    is(b - a, sub(B, A), "b - a");
    hs_check((a == b) == equal(A, B), "a == b");
    hs_check((a != b) == !equal(A, B), "a != b");
    is(a * s, emul(A, all<n, m>(z)), "a * s");
    is(s * a, emul(A, all<n, m>(z)), "s * a");
    is(a.element_mul(b), emul(A, B), "element_mul()");
    is(a.scalar_add(s), add(A, all<n, m>(z)), "scalar_add()");
    // arrays
    auto x = a.asArray();
    auto y = b.asArray();
    isarr(x + y, add(A, B), "array + array");
    isarr(x - y, sub(A, B), "array - array");
    isarr(x * y, emul(A, B), "array * array");
    isarr(x + s, add(A, all<n, m>(z)), "array + s");
    isarr(s + x, add(A, all<n, m>(z)), "s + array");
    if constexpr (std::is_convertible<hila::type_minus<T, S>, T>::value) { // the tree refuses others
        isarr(x - s, sub(A, all<n, m>(z)), "array - s");
        isarr(s - x, sub(all<n, m>(z), A), "s - array");
        is(a.scalar_sub(s), sub(A, all<n, m>(z)), "scalar_sub()");
    }
    isarr(x * s, emul(A, all<n, m>(z)), "array * s");
    isarr(s * x, emul(A, all<n, m>(z)), "s * array");
    hs_check((x == y) == equal(A, B), "array == array");
    hs_check((x != y) == !equal(A, B), "array != array");
    hs_reach("pair");
}
// operators that change the left side: T must be able to hold the result
template <int n, int m, typename T, typename U, typename S> static void change() {
    auto a = mat<n, m, T>("a");
    auto b = mat<n, m, U>("b");
    auto r = mat<m, m, U>("r");
    auto A = km(a), B = km(b);
    S s = sy<S>::get("s", 0);
    K z = k(s);
    Matrix<n, m, T> c;
    c = b; is(c, B, "c = b");
    Matrix<n, m, T> f(b); is(f, B, "conversion");
    c = a; c += b; is(c, add(A, B), "c += b");
    c = a; c -= b; is(c, sub(A, B), "c -= b");
    c = a; c *= s; is(c, emul(A, all<n, m>(z)), "c *= s");
    if constexpr (n == m) { c = a; c *= r; is(c, mul(A, km(r)), "c *= r"); }
    Array<n, m, T> x;
    x = b.asArray(); isarr(x, B, "array = array");
    if constexpr (std::is_convertible<U, T>::value) {
        x = a.asArray(); x += b.asArray(); isarr(x, add(A, B), "array += array");
        x = a.asArray(); x -= b.asArray(); isarr(x, sub(A, B), "array -= array");
    }
    x = a.asArray(); x *= b.asArray(); isarr(x, emul(A, B), "array *= array");
    x = a.asArray(); x += s; isarr(x, add(A, all<n, m>(z)), "array += s");
    x = a.asArray(); x -= s; isarr(x, sub(A, all<n, m>(z)), "array -= s");
    x = a.asArray(); x *= s; isarr(x, emul(A, all<n, m>(z)), "array *= s");
    x = s; isarr(x, all<n, m>(z), "array = s");
    x = a.asArray(); x += x.e(0, 0); isarr(x, add(A, all<n, m>(A.v[0][0])), "array += element");
    x = a.asArray(); x *= x.e(0, 0); isarr(x, emul(A, all<n, m>(A.v[0][0])), "array *= element");
    auto d = dia<m, U>("d");
    c = a; c *= d; is(c, mul(A, km(d)), "c *= diagonal");
    hs_reach("change");
}
// division, floating point only
template <int n, int m, typename T, typename U, typename S> static void divide() {
    auto a = mat<n, m, T>("a");
    auto b = mat<n, m, U>("b");
    auto d = dia<m, U>("d");
    auto A = km(a), B = km(b);
    S s = sy<S>::get("s", 0);
    K z = k(s);
    bool ok = n2(z) != 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) ok = ok & (n2(B.v[i][j]) != 0) & (n2(k(d.c[j])) != 0) & (n2(A.v[i][j]) != 0);
    hs_assume(ok);
    Matrix<n, m, T> c;
    is(a / s, ediv(A, all<n, m>(z)), "a / s");
    c = a; c /= s; is(c, ediv(A, all<n, m>(z)), "c /= s");
    c = a; c /= c.e(0, 0); is(c, ediv(A, all<n, m>(A.v[0][0])), "c /= element");
    is(a.element_div(b), ediv(A, B), "element_div()");
    auto x = a.asArray();
    isarr(x / b.asArray(), ediv(A, B), "array / array");
    isarr(x / s, ediv(A, all<n, m>(z)), "array / s");
    isarr(s / x, ediv(all<n, m>(z), A), "s / array");
    x /= b.asArray(); isarr(x, ediv(A, B), "array /= array");
    x = a.asArray(); x /= s; isarr(x, ediv(A, all<n, m>(z)), "array /= s");
    x = a.asArray(); x /= x.e(0, 0); isarr(x, ediv(A, all<n, m>(A.v[0][0])), "array /= element");
    KM<n, m> q;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) q.v[i][j] = A.v[i][j] / k(d.c[j]);
    is(a / d, q, "a / diagonal");
    c = a; c /= d; is(c, q, "c /= diagonal");
    hs_reach("divide");
}
// products
template <int n, int m, int p, typename T, typename U> static void product() {
    auto a = mat<n, m, T>("a");
    auto b = mat<m, p, U>("b");
    auto A = km(a);
    auto B = km(b);
    auto P = mul(A, B);
    typedef hila::type_mul<T, U> R;
    if constexpr (n == 1 && p == 1) same(a * b, P.v[0][0], "row * column");
    else is(a * b, P, "a * b");
    auto r = mat<n, p, R>("r");
    auto R0 = km(r);
    mult_add(a, b, r); is(r, add(R0, P), "mult_add");
    mult_sub(a, b, r); mult_sub(a, b, r); is(r, sub(R0, P), "mult_sub");
    mult(a, b, r); is(r, P, "mult");
    Matrix<p, n, R> h;
    mult_aa(a, b, h); is(h, tr(P, true), "mult_aa");
    // numbers
    U s = sy<U>::get("s", 0);
    auto Z = emul(A, all<n, m>(k(s)));
    auto t = mat<n, m, R>("t");
    auto T0 = km(t);
    mult_add(a, s, t); is(t, add(T0, Z), "mult_add(matrix, number)");
    mult_sub(a, s, t); mult_sub(s, a, t); is(t, sub(T0, Z), "mult_sub(matrix, number)");
    mult(a, s, t); is(t, Z, "mult(matrix, number)");
    mult(s, a, t); is(t, Z, "mult(number, matrix)");
    mult_add(s, a, t); is(t, add(Z, Z), "mult_add(number, matrix)");
    // diagonal
    auto d = dia<m, U>("d");
    auto D = km(d);
    is(a * d, mul(A, D), "a * diagonal");
    auto e = dia<n, U>("e");
    is(e * a, mul(km(e), A), "diagonal * a");
    if constexpr (n == p) {
        K s0 = {0, 0};
        for (int i = 0; i < n; i++) s0 = s0 + P.v[i][i];
        same(a.mul_trace(b), s0, "mul_trace()");
        same(mul_trace(a, b), s0, "mul_trace");
    }
    hs_reach("product");
}
// vectors
template <int n, typename T, typename U> static void vectors() {
    auto a = mat<n, 1, T>("a");
    auto b = mat<n, 1, U>("b");
    auto c = mat<n + 1, 1, U>("c");
    auto A = km(a), B = km(b);
    K d = {0, 0};
    for (int i = 0; i < n; i++) d = d + cj(A.v[i][0]) * B.v[i][0];
    same(a.dot(b), d, "dot()");
    same(a.dagger() * b, d, "dagger() * b");
    auto o = a.outer_product(c);
    for (int i = 0; i < n; i++)
        for (int j = 0; j <= n; j++) same(o.e(i, j), A.v[i][0] * cj(k(c.e(j))), "outer_product()");
    for (int i = 0; i < n; i++) {
        same(a[i], A.v[i][0], "a[i]");
        same(a.e(i), A.v[i][0], "a.e(i)");
        same(a.transpose()[i], A.v[i][0], "row[i]");
        same(a.asDiagonalMatrix().e(i), A.v[i][0], "asDiagonalMatrix()");
    }
    same(a.asArray().dot(b.asArray()), d, "array dot()");
    Vector<n, int> pn;
    for (int s = 0; s < n; s++) {
        for (int j = 0; j < n; j++) pn.e(j) = (2 * s + (s % 2 ? j : n - j)) % n;
        auto q = a.permute(pn);
        for (int i = 0; i < n; i++) same(q.e(i), A.v[pn.e(i)][0], "permute()");
    }
    hs_reach("vectors");
}
template <typename Q, int n> static void sorted(const Q &q, const KM<n, 1> &A, const Vector<n, int> &p, bool up) {
    for (int i = 0; i < n; i++) {
        hs_check(p.e(i) >= 0 && p.e(i) < n, "sort(): permutation");
        for (int j = 0; j < i; j++) hs_check(p.e(i) != p.e(j), "sort(): permutation repeats");
        same(q.e(i), A.v[p.e(i)][0], "sort(): permutation and result differ");
        if (i) hs_check(up ? q.e(i - 1) <= q.e(i) : q.e(i - 1) >= q.e(i), "sort(): order");
    }
}
template <int n, typename T> static void ordered() {
    auto a = mat<n, 1, T>("a");
    auto A = km(a);
    Vector<n, int> p;
    auto q = a.sort(p);
    sorted(q, A, p, true);
    is(a.sort(), km(q), "sort()");
    auto r = a.sort(p, hila::sort::descending);
    sorted(r, A, p, false);
    is(a.sort(hila::sort::descending), km(r), "sort()");
    is(a.sort(p, hila::sort::unsorted), A, "sort(unsorted)");
    auto t = a.asDiagonalMatrix().sort(p);
    sorted(t, A, p, true);
    auto u = a.asDiagonalMatrix().sort(p, hila::sort::descending);
    sorted(u, A, p, false);
    int i = -1, j = -1;
    T mx = a.max(), mn = a.min(), x2 = a.max(i), n2 = a.min(j);
    hs_check(mx == q.e(n - 1) && mn == q.e(0) && x2 == mx && n2 == mn, "max(), min()");
    hs_check(i >= 0 && i < n && j >= 0 && j < n, "max(i), min(i): index");
    hs_check(a.e(i) == mx && a.e(j) == mn, "max(i), min(i): not there");
    hs_check(a.asDiagonalMatrix().max() == mx && a.asDiagonalMatrix().min() == mn, "diagonal max(), min()");
    hs_reach("ordered");
}
// square matrices
template <int n, typename T, typename S> static void square() {
    auto a = mat<n, n, T>("a");
    auto A = km(a);
    S s = sy<S>::get("s", 0);
    K z = k(s);
    Matrix<n, n, T> c;
    is(a + s, add(A, dg<n>(z)), "a + s");
    is(s + a, add(A, dg<n>(z)), "s + a");
    is(a - s, sub(A, dg<n>(z)), "a - s");
    is(s - a, sub(dg<n>(z), A), "s - a");
    K t = {0, 0};
    for (int i = 0; i < n; i++) t = t + A.v[i][i];
    same(a.trace(), t, "trace()");
    same(trace(a), t, "trace");
    for (int i = 0; i < n; i++) same(a.diagonal().e(i), A.v[i][i], "diagonal()");
    auto v = mat<n, 1, T>("v");
    c = a; c.set_diagonal(v);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) same(c.e(i, j), i == j ? k(v.c[i]) : A.v[i][j], "set_diagonal()");
    c = a; c += c.e(0, 0); is(c, add(A, dg<n>(A.v[0][0])), "c += c.e(0, 0)");
    c = a; c -= c.e(0, 0); is(c, sub(A, dg<n>(A.v[0][0])), "c -= c.e(0, 0)");
    c = a; c *= c; is(c, mul(A, A), "c *= c");
    c = a; c = c * c.dagger(); is(c, mul(A, tr(A, true)), "c = c * c.dagger()");
    c = 1; is(c, dg<n>({1, 0}), "c = 1");
    Matrix<n, n, T> e(2); is(e, dg<n>({2, 0}), "Matrix(2)");
    is(a * a, mul(A, A), "a * a");
    hs_reach("square");
}
// square matrices with numbers the elements can hold
template <int n, typename T, typename S> static void square2() {
    auto a = mat<n, n, T>("a");
    auto A = km(a);
    S s = sy<S>::get("s", 0);
    K z = k(s);
    Matrix<n, n, T> c;
    c = a; c += s; is(c, add(A, dg<n>(z)), "c += s");
    c = a; c -= s; is(c, sub(A, dg<n>(z)), "c -= s");
    c = s; is(c, dg<n>(z), "c = s");
    Matrix<n, n, T> e(s); is(e, dg<n>(z), "Matrix(s)");
    auto d = dia<n, S>("d");
    auto D = km(d);
    c = d; is(c, D, "c = diagonal");
    c = a; c += d; is(c, add(A, D), "c += diagonal");
    c = a; c -= d; is(c, sub(A, D), "c -= diagonal");
    is(a + d, add(A, D), "a + diagonal");
    is(d + a, add(A, D), "diagonal + a");
    is(a - d, sub(A, D), "a - diagonal");
    is(d - a, sub(D, A), "diagonal - a");
    is(a * d, mul(A, D), "a * diagonal");
    is(d * a, mul(D, A), "diagonal * a");
    hs_check((a == d) == equal(A, D), "a == diagonal");
    hs_check((d == a) == equal(A, D), "diagonal == a");
    auto b = mat<2, 2, S>("b");
    auto B = km(b);
    for (int p = 0; p < n; p++)
        for (int q = 0; q < n; q++) {
            if (p == q) continue;
            KM<n, n> M = dg<n>({1, 0});
            M.v[p][p] = B.v[0][0]; M.v[p][q] = B.v[0][1]; M.v[q][p] = B.v[1][0]; M.v[q][q] = B.v[1][1];
            c = a; c.mult_by_2x2_left(p, q, b); is(c, mul(M, A), "mult_by_2x2_left()");
            c = a; c.mult_by_2x2_right(p, q, b); is(c, mul(A, M), "mult_by_2x2_right()");
        }
    hs_reach("square2");
}
template <int n, typename T> static void powers() {
    auto a = mat<n, n, T>("a");
    auto A = km(a);
    KM<n, n> P = dg<n>({1, 0});
    int pmax = (int)hs_parami("pmax", std::is_integral<T>::value ? 2 : 5);
    for (int p = 0; p <= pmax; p++) {
        is(pow(a, p), P, "pow");
        P = mul(P, A);
    }
    hs_reach("powers");
}
// exponential of given order: sum of a^k / k!
template <int n, typename T> static void expon() {
    auto a = mat<n, n, T>("a");
    auto b = mat<n, n, T>("b");
    auto A = km(a);
    auto B = km(b);
    KM<n, n> E = dg<n>({1, 0}), P = E, DE = dg<n>({0, 0}), DP = DE;
    double f = 1;
    Matrix_t<n, n, T, Matrix<n, n, T>> u = a, v = b, r, dr;
    int omax = (int)hs_parami("omax", 3);
    for (int o = 0; o <= omax; o++) {
        if (o > 0) {
            DP = add(mul(DP, A), mul(P, B));
            P = mul(P, A);
            f *= 1.0 / o; // the rounded number the tree uses
            KM<n, n> F = all<n, n>({f, 0});
            E = add(E, emul(P, F));
            DE = add(DE, emul(DP, F));
        }
        is(exp(u, o), E, "exp");
        mult_exp(u, v, r, dr, o);
        is(r, mul(B, E), "mult_exp: value");
        is(dr, DE, "mult_exp: derivative");
    }
    hs_reach("expon");
}
// diagonal matrices
template <int n, typename T, typename U, typename S> static void diagonal() {
    auto a = dia<n, T>("a");
    auto b = dia<n, U>("b");
    S s = sy<S>::get("s", 0);
    K z = k(s), t = {0, 0}, p = {1, 0};
    auto A = km(a), B = km(b);
    is(-a, sub(dg<n>({0, 0}), A), "-d");
    is(+a, A, "+d");
    is(a + b, add(A, B), "d + d");
    is(a - b, sub(A, B), "d - d");
    is(a * b, mul(A, B), "d * d");
    is(a + s, add(A, dg<n>(z)), "d + s");
    is(s + a, add(A, dg<n>(z)), "s + d");
    is(a - s, sub(A, dg<n>(z)), "d - s");
    is(s - a, sub(dg<n>(z), A), "s - d");
    is(a * s, mul(A, dg<n>(z)), "d * s");
    is(s * a, mul(A, dg<n>(z)), "s * d");
    is(conj(a), tr(A, true), "conj(d)");
    is(a.dagger(), tr(A, true), "d.dagger()");
    is(adjoint(a), tr(A, true), "adjoint(d)");
    is(transpose(a), A, "transpose(d)");
    is(a.toMatrix(), A, "toMatrix()");
    Re x2 = 0;
    for (int i = 0; i < n; i++) {
        K x = A.v[i][i];
        t = t + x;
        p = p * x;
        x2 += n2(x);
        same(real(a).e(i), {x.r, 0}, "real(d)");
        same(imag(a).e(i), {x.i, 0}, "imag(d)");
        Re y = (Re)abs(a).e(i);
        hs_check(y >= 0, "abs(d) negative");
        EQ(y * y, n2(x), "abs(d)");
        for (int j = 0; j < n; j++) {
            same(a.row(i).e(j), A.v[i][j], "d.row()");
            same(a.column(i).e(j), A.v[j][i], "d.column()");
        }
        same(a.asVector().e(i), x, "asVector()");
        same(a.asArray().e(i), x, "asArray()");
    }
    same(trace(a), t, "trace(d)");
    same(det(a), p, "det(d)");
    EQ((Re)squarenorm(a), x2, "squarenorm(d)");
    double no = (double)norm(a);
    hs_check(no >= 0, "norm(d) negative");
#ifdef INTS
    hs_eq_f64(no, (double)a.toMatrix().norm(), "norm(d)");
#else
    hs_eq_f64(no * no, x2, "norm(d)");
#endif
    hs_check((a == b) == equal(A, B), "d == d");
    hs_check((a != b) == !equal(A, B), "d != d");
    DiagonalMatrix<n, T> c;
    c = a; c += c; is(c, add(A, A), "d += d");
    c = a; c *= c; is(c, mul(A, A), "d *= d");
    c = a; c += c.e(0); is(c, add(A, dg<n>(A.v[0][0])), "d += element");
    c = a; c -= c.e(0); is(c, sub(A, dg<n>(A.v[0][0])), "d -= element");
    c = a; c *= c.e(0); is(c, mul(A, dg<n>(A.v[0][0])), "d *= element");
    c = a; c = c.e(n - 1); is(c, dg<n>(A.v[n - 1][n - 1]), "d = element");
    hs_reach("diagonal");
}
template <int n, typename T, typename U, typename S> static void diagonal2() {
    auto a = dia<n, T>("a");
    auto b = dia<n, U>("b");
    S s = sy<S>::get("s", 0);
    K z = k(s);
    auto A = km(a), B = km(b);
    bool ok = n2(z) != 0;
    for (int i = 0; i < n; i++) ok = ok & (n2(A.v[i][i]) != 0) & (n2(B.v[i][i]) != 0);
    hs_assume(ok);
    DiagonalMatrix<n, T> c;
    c = b; is(c, B, "d = d");
    c = s; is(c, dg<n>(z), "d = s");
    c = a; c += b; is(c, add(A, B), "d += d");
    c = a; c -= b; is(c, sub(A, B), "d -= d");
    c = a; c *= b; is(c, mul(A, B), "d *= d");
    c = a; c += s; is(c, add(A, dg<n>(z)), "d += s");
    c = a; c -= s; is(c, sub(A, dg<n>(z)), "d -= s");
    c = a; c *= s; is(c, mul(A, dg<n>(z)), "d *= s");
    KM<n, n> q = dg<n>({0, 0}), w = q, v = q;
    for (int i = 0; i < n; i++) {
        q.v[i][i] = A.v[i][i] / B.v[i][i];
        w.v[i][i] = A.v[i][i] / z;
        v.v[i][i] = z / A.v[i][i];
    }
    is(a / b, q, "d / d");
    c = a; c /= b; is(c, q, "d /= d");
    is(a / s, w, "d / s");
    c = a; c /= s; is(c, w, "d /= s");
    is(s / a, v, "s / d");
    c = a; c /= c.e(0);
    for (int i = 0; i < n; i++) same(c.e(i), A.v[i][i] / A.v[0][0], "d /= element");
    hs_reach("diagonal2");
}
typedef Complex<double> Z;
typedef Complex<float> ZF;
extern "C" void hs_main() {
#ifdef INTS
    switch (hs_parami("what", 0)) {
    case 0: shape<2, 3, int>(); break;
    case 1: shape<1, 3, int>(); break;
    case 2: pair<2, 3, int, int, int>(); break;
    case 3: change<2, 2, int, int, int>(); break;
    case 4: product<2, 3, 4, int, int>(); break;
    case 5: product<3, 2, 1, int, int>(); break;
    case 6: vectors<3, int, int>(); break;
    case 7: square<2, int, int>(); break;
    case 8: square2<2, int, int>(); break;
    case 9: diagonal<2, int, int, int>(); break;
    case 10: powers<2, int>(); break;
    }
#else
    switch (hs_parami("what", 0)) {
    case 0: shape<2, 3, double>(); shape<2, 2, Z>(); break;
    case 1: shape<3, 2, Z>(); shape<3, 3, double>(); break;
    case 2: shape<1, 3, Z>(); shape<3, 1, Z>(); shape<1, 3, double>(); break;
    case 3: shape<4, 1, float>(); shape<2, 2, ZF>(); break;
    case 4: pair<2, 3, double, double, double>(); pair<2, 2, Z, Z, Z>(); pair<1, 3, double, double, int>(); break;
    case 5: pair<3, 2, Z, double, double>(); pair<3, 1, double, Z, double>(); pair<2, 2, double, float, float>(); break;
    case 6: pair<3, 1, ZF, float, float>(); pair<2, 2, double, double, Z>(); pair<2, 2, int, double, double>(); break;
    case 7: change<2, 3, double, double, double>(); change<2, 2, Z, Z, Z>(); change<3, 3, double, double, int>(); break;
    case 8: change<2, 2, Z, double, double>(); change<2, 2, double, float, float>(); change<1, 3, Z, double, Z>(); break;
    case 9: divide<2, 2, double, double, double>(); divide<2, 2, Z, Z, Z>(); divide<1, 2, Z, double, double>(); break;
    case 10: divide<2, 2, float, double, double>(); divide<2, 3, double, double, int>(); break;
    case 11: product<2, 3, 2, double, double>(); product<2, 2, 2, Z, Z>(); product<3, 2, 1, double, double>(); break;
    case 12: product<2, 3, 2, Z, double>(); product<1, 3, 2, double, Z>(); product<1, 3, 1, Z, Z>(); break;
    case 13: product<3, 3, 3, Z, Z>(); product<2, 2, 2, double, float>(); product<3, 1, 3, double, double>(); break;
    case 14: product<3, 3, 1, ZF, float>(); product<3, 2, 1, double, Z>(); break;
    case 15: vectors<3, double, double>(); vectors<3, Z, Z>(); vectors<2, double, Z>(); vectors<2, Z, double>(); break;
    case 16: ordered<3, double>(); break;
    case 17: ordered<3, int>(); break;
    case 18: square<2, double, double>(); square<2, Z, Z>(); square<3, Z, double>(); break;
    case 19: square<3, double, int>(); square<2, float, double>(); square<2, double, Z>(); break;
    case 20: square2<2, double, double>(); square2<2, Z, Z>(); square2<3, Z, double>(); break;
    case 21: square2<3, double, int>(); square2<2, float, float>(); square2<3, double, double>(); break;
    case 22: powers<2, double>(); break;
    case 23: expon<2, double>(); break;
    case 24: diagonal<3, double, double, double>(); diagonal<3, Z, Z, Z>(); diagonal<2, Z, double, double>(); break;
    case 25: diagonal<3, double, Z, double>(); diagonal<2, float, double, double>(); diagonal<2, double, double, int>(); break;
    case 26: diagonal2<2, double, double, double>(); diagonal2<2, Z, Z, Z>(); diagonal2<2, Z, double, double>(); diagonal2<3, float, float, float>(); break;
    }
#endif
    hs_reach("end");
}
