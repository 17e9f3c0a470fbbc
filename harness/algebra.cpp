// Lie algebras and groups: SU(N) with its algebra, quaternion form of SU(2), U(1).
#include "hv.h"
#ifndef NC
#define NC 2
#endif
typedef double Re;
#define EQ(a, b, w) hs_eq_f64(a, b, w)
struct K {
    Re r, i;
};
static K operator+(K a, K b) { return {a.r + b.r, a.i + b.i}; }
static K operator-(K a, K b) { return {a.r - b.r, a.i - b.i}; }
static K operator*(K a, K b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static K operator*(Re a, K b) { return {a * b.r, a * b.i}; }
static K cj(K a) { return {a.r, -a.i}; }
template <int n> struct M {
    K v[n][n];
};
template <int n> static M<n> operator*(const M<n> &a, const M<n> &b) {
    M<n> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            K s = {0, 0};
            for (int l = 0; l < n; l++) s = s + a.v[i][l] * b.v[l][j];
            r.v[i][j] = s;
        }
    return r;
}
template <int n> static M<n> dag(const M<n> &a) {
    M<n> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) r.v[i][j] = cj(a.v[j][i]);
    return r;
}
template <int n> static K tr(const M<n> &a) {
    K s = {0, 0};
    for (int i = 0; i < n; i++) s = s + a.v[i][i];
    return s;
}
template <int n, typename T, typename MT> static M<n> km(const Matrix_t<n, n, Complex<T>, MT> &a) {
    M<n> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) r.v[i][j] = {(Re)a.c[i * n + j].re, (Re)a.c[i * n + j].im};
    return r;
}
template <int n> static void same(const M<n> &a, const M<n> &b, const char *w) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            EQ(a.v[i][j].r, b.v[i][j].r, w);
            EQ(a.v[i][j].i, b.v[i][j].i, w);
        }
}
static double bound = 100;
static double sym(const char *n, int i) { return hs_f64(n, i, -bound, bound); }
template <int n, typename G> static G mat(const char *w) {
    G a;
    for (int i = 0; i < n * n; i++) a.c[i] = Complex<typename G::base_type>(sym(w, 2 * i), sym(w, 2 * i + 1));
    return a;
}
// the generators: diagonal ones, then real and imaginary off-diagonal ones, tr T_a T_b = -delta_ab / 2
template <int n> static M<n> gen(int a) {
    M<n> g;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) g.v[i][j] = {0, 0};
    if (a < n - 1) {
        int i = a + 1;
        Re s = 1.0 / sqrt(2.0 * i * (i + 1));
        for (int j = 0; j < i; j++) g.v[j][j] = {0, s};
        g.v[i][i] = {0, -i * s};
        return g;
    }
    int k = n - 1;
    for (int i = 0; i < n - 1; i++)
        for (int j = i + 1; j < n; j++) {
            if (a == k) g.v[i][j] = {0.5, 0}, g.v[j][i] = {-0.5, 0};
            if (a == k + 1) g.v[i][j] = {0, 0.5}, g.v[j][i] = {0, 0.5};
            k += 2;
        }
    return g;
}
template <int n> static M<n> sum(const double *a) {
    M<n> s;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) s.v[i][j] = {0, 0};
    for (int k = 0; k < n * n - 1; k++) {
        M<n> g = gen<n>(k);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) s.v[i][j] = s.v[i][j] + a[k] * g.v[i][j];
    }
    return s;
}
template <int n> static Re coef(int a, const M<n> &m) { return -2.0 * tr(gen<n>(a) * m).r; }
static const int N = NC, NA = NC * NC - 1;

template <typename T> static void vectors() {
    Algebra<SU<N, T>> a, b;
    double av[NA], bv[NA];
    for (int i = 0; i < NA; i++) a.e(i) = av[i] = sym("a", i), b.e(i) = bv[i] = sym("b", i);
    double s = sym("s", 0);
    M<N> x = sum<N>(av), y = sum<N>(bv);
    SU<N, T> m = a.expand();
    same(km(m), x, "expand is the sum of the generators");
    K t = tr(km(m));
    EQ(t.r, 0, "trace"), EQ(t.i, 0, "trace");
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) EQ(m.e(i, j).re, -m.e(j, i).re, "expand is anti-hermitean"), EQ(m.e(i, j).im, m.e(j, i).im, "expand is anti-hermitean");
    auto p = m.project_to_algebra();
    for (int i = 0; i < NA; i++) EQ(p.e(i), av[i], "projection of the expansion");
    T nrm = -1;
    p = m.project_to_algebra(nrm);
    double na = 0;
    for (int i = 0; i < NA; i++) {
        EQ(p.e(i), av[i], "projection of the expansion (with norm)");
        na += fabs(av[i]);
    }
    EQ(nrm, na, "norm of the projection");
    p = m.project_to_algebra_scaled(s);
    for (int i = 0; i < NA; i++) EQ(p.e(i), s * av[i], "scaled projection");
    m = a.expand_scaled(s);
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) EQ(m.e(i, j).re, s * x.v[i][j].r, "scaled expansion"), EQ(m.e(i, j).im, s * x.v[i][j].i, "scaled expansion");
    double d = 0;
    for (int i = 0; i < NA; i++) d += av[i] * bv[i];
    EQ(a.dot(b), 0.5 * d, "dot");
    EQ(a.dot(b), -tr(x * y).r, "dot is minus the trace of the product");
}
template <typename T> static void projections() {
    SU<N, T> m = mat<N, SU<N, T>>("m");
    M<N> x = km(m);
    double s = sym("s", 0), na = 0;
    auto p = m.project_to_algebra();
    auto q = m.project_to_algebra_scaled(s);
    T nrm = -1;
    auto r = m.project_to_algebra(nrm);
    for (int k = 0; k < NA; k++) {
        double c = coef<N>(k, x);
        EQ(p.e(k), c, "projection");
        EQ(q.e(k), s * c, "scaled projection");
        EQ(r.e(k), c, "projection (with norm)");
        na += fabs(c);
    }
    EQ(nrm, na, "norm of the projection");
    // the expansion of the projection: traceless anti-hermitean part
    M<N> e = km(p.expand());
    K t = tr(x);
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) {
            K h = 0.5 * (x.v[i][j] - cj(x.v[j][i]));
            if (i == j) h.i -= t.i / N;
            EQ(e.v[i][j].r, h.r, "traceless anti-hermitean part");
            EQ(e.v[i][j].i, h.i, "traceless anti-hermitean part");
        }
}
static void generators() {
    Alg_gen<N, double> g[NA];
    static Alg_gen<N, double> pr[NA][NA], pr2[NA][NA];
    Algebra<SU<N, double>>::generator_list(g);
    Algebra<SU<N, double>>::generator_product_list(g, pr);
    Algebra<SU<N, double>>::generator_product_list(pr2);
    M<N> G[NA];
    for (int a = 0; a < NA; a++) {
        G[a] = km(g[a].to_matrix());
        same(G[a], gen<N>(a), "generator");
        M<N> h = dag(G[a]);
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++) EQ(h.v[i][j].r, -G[a].v[i][j].r, "generators are anti-hermitean"), EQ(h.v[i][j].i, -G[a].v[i][j].i, "generators are anti-hermitean");
        K t = tr(G[a]);
        EQ(t.r, 0, "generators are traceless"), EQ(t.i, 0, "generators are traceless");
    }
    for (int a = 0; a < NA; a++)
        for (int b = 0; b < NA; b++) {
            M<N> p = G[a] * G[b];
            same(km(pr[a][b].to_matrix()), p, "products of generators");
            same(km(pr2[a][b].to_matrix()), p, "products of generators");
            K t = tr(p);
            EQ(t.r, a == b ? -0.5 : 0.0, "generators are orthonormal");
            EQ(t.i, 0, "generators are orthonormal");
        }
}
static void bilinear() {
    auto v = mat<N, Matrix<N, N, Complex<double>>>("v");
    auto w = mat<N, Matrix<N, N, Complex<double>>>("w");
    M<N> x = km(v), y = km(w);
    Matrix<NA, NA, double> o;
    project_to_algebra_bilinear(v, w, o);
    for (int a = 0; a < NA; a++)
        for (int b = 0; b < NA; b++) EQ(o.e(a, b), 2 * tr(dag(gen<N>(a)) * x * gen<N>(b) * y).r, "projection with two matrices");
    project_to_algebra_bilinear(v, o);
    for (int a = 0; a < NA; a++)
        for (int b = 0; b < NA; b++) EQ(o.e(a, b), 2 * tr(dag(gen<N>(a)) * x * gen<N>(b)).r, "projection with one matrix");
    Matrix<N, N, Complex<double>> u[N][N];
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            for (int l = 0; l < N * N; l++) u[i][j].c[l] = Complex<double>(sym("u", 1000 * i + 100 * j + 2 * l), sym("u", 1000 * i + 100 * j + 2 * l + 1));
    project_to_algebra_bilinear(u, o);
    for (int a = 0; a < NA; a++)
        for (int b = 0; b < NA; b++) {
            M<N> g = gen<N>(b);
            Re s = 0;
            for (int i = 0; i < N; i++)
                for (int j = 0; j < N; j++) s += (tr(dag(gen<N>(a)) * km(u[i][j])) * g.v[j][i]).r;
            EQ(o.e(a, b), 2 * s, "projection of a matrix of matrices");
        }
}
// the adjoint action, for any matrix
static void conjugations() {
    SU<N, double> u = mat<N, SU<N, double>>("u");
    Algebra<SU<N, double>> a;
    double av[NA];
    for (int i = 0; i < NA; i++) a.e(i) = av[i] = sym("a", i);
    M<N> x = sum<N>(av), y = km(u);
    auto l = left_conjugation(u, a), r = right_conjugation(u, a);
    M<N> L = y * x * dag(y), R = dag(y) * x * y;
    for (int i = 0; i < NA; i++) {
        EQ(l.e(i), coef<N>(i, L), "left conjugation");
        EQ(r.e(i), coef<N>(i, R), "right conjugation");
    }
}
// quaternions: U = d + i (a s1 + b s2 + c s3)
template <typename T> static SU2<T> quat(const char *n) {
    SU2<T> u;
    u.a = sym(n, 0), u.b = sym(n, 1), u.c = sym(n, 2), u.d = sym(n, 3);
    return u;
}
template <typename T> static M<2> qm(const SU2<T> &u) {
    M<2> m;
    m.v[0][0] = {(Re)u.d, (Re)u.c}, m.v[0][1] = {(Re)u.b, (Re)u.a}, m.v[1][0] = {-(Re)u.b, (Re)u.a}, m.v[1][1] = {(Re)u.d, -(Re)u.c};
    return m;
}
template <int n> static M<n> lin(Re s, const M<n> &a, Re t, const M<n> &b) {
    M<n> r;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) r.v[i][j] = s * a.v[i][j] + t * b.v[i][j];
    return r;
}
template <typename T, typename S> static void quaternions() {
    SU2<T> u = quat<T>("u");
    SU2<S> v = quat<S>("v");
    double s = sym("s", 0);
    M<2> x = qm(u), y = qm(v), I, O;
    I.v[0][0] = I.v[1][1] = {1, 0}, I.v[0][1] = I.v[1][0] = {0, 0};
    for (int i = 0; i < 4; i++) O.v[i / 2][i % 2] = {0, 0};
    same(km(u.convert_to_2x2_matrix()), x, "quaternion as a matrix");
    same(qm(u * v), x * y, "product");
    SU2<decltype(u.a * v.a)> w;
    mult(u, v, w);
    same(qm(w), x * y, "product (function)");
    EQ(mul_trace(u, v), tr(x * y).r, "trace of the product");
    EQ(tr(x * y).i, 0, "trace is real");
    same(qm(u.dagger()), dag(x), "dagger");
    EQ(u.trace(), tr(x).r, "trace"), EQ(trace(u), tr(x).r, "trace");
    EQ(u.det(), (x.v[0][0] * x.v[1][1] - x.v[0][1] * x.v[1][0]).r, "determinant"), EQ(det(u), u.det(), "determinant");
    EQ(squarenorm(u), u.a * u.a + u.b * u.b + u.c * u.c + u.d * u.d, "squared norm");
    same(qm(u + v), lin(1, x, 1, y), "sum"), same(qm(u - v), lin(1, x, -1, y), "difference");
    same(qm(-u), lin(-1, x, 0, x), "negative"), same(qm(+u), x, "plus");
    same(qm(u + s), lin(1, x, s, I), "sum with a number"), same(qm(s + u), lin(1, x, s, I), "sum with a number");
    same(qm(u - s), lin(1, x, -s, I), "difference with a number"), same(qm(s - u), lin(-1, x, s, I), "difference with a number");
    same(qm(u * s), lin(s, x, 0, x), "product with a number"), same(qm(s * u), lin(s, x, 0, x), "product with a number");
    SU2<T> z = u;
    z += v, same(qm(z), lin(1, x, 1, y), "+=");
    z = u, z -= v, same(qm(z), lin(1, x, -1, y), "-=");
    z = u, z += s, same(qm(z), lin(1, x, s, I), "+= number");
    z = u, z -= s, same(qm(z), lin(1, x, -s, I), "-= number");
    z = u, z *= s, same(qm(z), lin(s, x, 0, x), "*= number");
    z = s, same(qm(z), lin(s, I, 0, I), "= number");
    z = v, same(qm(z), y, "= other type");
    z = {1.5, s, -2.0, 3.0};
    EQ(z.a, 1.5, "= list"), EQ(z.b, s, "= list"), EQ(z.c, -2, "= list"), EQ(z.d, 3, "= list");
    SU2<T> i1(s), i2 = {s, 1.0, 2.0, 3.0};
    same(qm(i1), lin(s, I, 0, I), "from a number");
    EQ(i2.a, s, "from a list"), EQ(i2.b, 1, "from a list"), EQ(i2.c, 2, "from a list"), EQ(i2.d, 3, "from a list");
    double t = sym("t", 0);
    hs_assume(t > 0.001);
    same(qm(u / t), lin(1 / t, x, 0, x), "quotient"), z = u, z /= t, same(qm(z), lin(1 / t, x, 0, x), "/=");
    hs_assume(u.det() > 0.001);
    z = u;
    z.normalize();
    EQ(z.det(), 1, "normalized determinant");
    z = u;
    z.reunitarize();
    M<2> h = qm(z);
    same(h * dag(h), I, "reunitarized matrix is unitary");
    double len = sqrt(u.det());
    same(qm(z), lin(1 / len, x, 0, x), "direction is kept");
    // projection of a matrix
    auto m = mat<3, Matrix<3, 3, Complex<T>>>("m");
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            if (i != j) {
                SU2<T> p = project_from_matrix(m, i, j);
                // the part of the 2x2 block of quaternion form: block + its adjugate conjugate
                K a = {(Re)m.e(i, i).re, (Re)m.e(i, i).im}, b = {(Re)m.e(i, j).re, (Re)m.e(i, j).im}, c = {(Re)m.e(j, i).re, (Re)m.e(j, i).im}, d = {(Re)m.e(j, j).re, (Re)m.e(j, j).im};
                M<2> q;
                q.v[0][0] = 0.5 * (a + cj(d)), q.v[0][1] = 0.5 * (b - cj(c)), q.v[1][0] = 0.5 * (c - cj(b)), q.v[1][1] = 0.5 * (d + cj(a));
                same(qm(p), q, "projection of a 2x2 block");
            }
    Vector<2, Complex<T>> f;
    f.e(0) = Complex<T>(sym("f", 0), sym("f", 1)), f.e(1) = Complex<T>(sym("f", 2), sym("f", 3));
    auto g = u * f;
    auto e = f.transpose() * u;
    for (int i = 0; i < 2; i++) {
        K a = {0, 0}, b = {0, 0};
        for (int j = 0; j < 2; j++) {
            K k = {(Re)f.e(j).re, (Re)f.e(j).im};
            a = a + x.v[i][j] * k, b = b + k * x.v[j][i];
        }
        EQ(g.e(i).re, a.r, "quaternion times vector"), EQ(g.e(i).im, a.i, "quaternion times vector");
        EQ(e.e(i).re, b.r, "row vector times quaternion"), EQ(e.e(i).im, b.i, "row vector times quaternion");
    }
}
template <typename T> static void su2algebra() {
    Algebra<SU2<T>> e, f;
    e.a = sym("e", 0), e.b = sym("e", 1), e.c = sym("e", 2), f.a = sym("f", 0), f.b = sym("f", 1), f.c = sym("f", 2);
    double s = sym("s", 0);
    SU2<T> x = e.expand();
    EQ(x.a, e.a / 2, "expand"), EQ(x.b, e.b / 2, "expand"), EQ(x.c, e.c / 2, "expand"), EQ(x.d, 0, "expand");
    auto p = x.project_to_algebra();
    EQ(p.a, e.a, "projection of the expansion"), EQ(p.b, e.b, "projection of the expansion"), EQ(p.c, e.c, "projection of the expansion");
    p = x.project_to_algebra_scaled(s);
    EQ(p.a, s * e.a, "scaled projection"), EQ(p.b, s * e.b, "scaled projection"), EQ(p.c, s * e.c, "scaled projection");
    EQ(e.dot(f), e.a * f.a + e.b * f.b + e.c * f.c, "dot"), EQ(su2_algebra_dot(e, f), e.dot(f), "dot");
    EQ(e.dot(f), -2 * tr(qm(x) * qm(f.expand())).r, "dot is -2 times the trace of the product");
    EQ(e.squarenorm(), e.dot(e), "squared norm"), EQ(squarenorm(e), e.dot(e), "squared norm");
    EQ(e.norm() * e.norm(), e.dot(e), "norm");
#define A3(x, A, B, C, w) { auto q = x; EQ(q.a, A, w), EQ(q.b, B, w), EQ(q.c, C, w); }
    A3(e + f, e.a + f.a, e.b + f.b, e.c + f.c, "sum");
    A3(e - f, e.a - f.a, e.b - f.b, e.c - f.c, "difference");
    A3(-e, -e.a, -e.b, -e.c, "negative");
    A3(+e, e.a, e.b, e.c, "plus");
    A3(e * s, e.a * s, e.b * s, e.c * s, "product with a number");
    A3(s * e, e.a * s, e.b * s, e.c * s, "product with a number");
    auto z = e;
    z += f; A3(z, e.a + f.a, e.b + f.b, e.c + f.c, "+=");
    z = e; z -= f; A3(z, e.a - f.a, e.b - f.b, e.c - f.c, "-=");
    z = e; z *= s; A3(z, e.a * s, e.b * s, e.c * s, "*=");
    z = 0; A3(z, 0, 0, 0, "= 0");
    z = {1.0, s, 2.0}; A3(z, 1, s, 2, "= list");
    Algebra<SU2<T>> n0(0); A3(n0, 0, 0, 0, "from 0");
    double t = sym("t", 0);
    hs_assume(t > 0.001);
    A3(e / t, e.a / t, e.b / t, e.c / t, "quotient");
    z = e; z /= t; A3(z, e.a / t, e.b / t, e.c / t, "/=");
    // conjugation by a unit quaternion
    SU2<T> u;
    u.a = hs_f64("u", 0, -1, 1), u.b = hs_f64("u", 1, -1, 1), u.c = hs_f64("u", 2, -1, 1);
    double r = 1 - u.a * u.a - u.b * u.b - u.c * u.c;
    hs_assume(r >= 0);
    u.d = hs_choose("sign", 0, 0, 1) ? sqrt(r) : -sqrt(r);
    EQ(u.det(), 1, "unit");
    auto L = qm(u) * qm(e.expand()) * dag(qm(u)), R = dag(qm(u)) * qm(e.expand()) * qm(u);
    same(qm(left_conjugation(u, e).expand()), L, "left conjugation");
    same(qm(right_conjugation(u, e).expand()), R, "right conjugation");
}
// exp and log in quaternion form
template <typename T> static void su2exp() {
    SU2<T> u = quat<T>("u"), x;
    double r2 = u.a * u.a + u.b * u.b + u.c * u.c;
    bool zero = r2 <= 0;
    double r = sqrt(r2), ed = ::exp(u.d);
    x = u.exp();
    if (zero) {
        EQ(x.d, ed, "exp without imaginary part"), EQ(x.a, 0, "exp without imaginary part"), EQ(x.b, 0, "exp without imaginary part"), EQ(x.c, 0, "exp without imaginary part");
        hs_reach("zero");
    } else {
        EQ(x.d, ed * cos(r), "exp"), EQ(x.a, ed * sin(r) / r * u.a, "exp"), EQ(x.b, ed * sin(r) / r * u.b, "exp"), EQ(x.c, ed * sin(r) / r * u.c, "exp");
        auto y = exp(u);
        EQ(y.a, x.a, "exp"), EQ(y.b, x.b, "exp"), EQ(y.c, x.c, "exp"), EQ(y.d, x.d, "exp");
        auto g = log(u);
        double h = 2 * acos(u.d) / r;
        EQ(g.a, h * u.a, "log"), EQ(g.b, h * u.b, "log"), EQ(g.c, h * u.c, "log");
        hs_reach("nonzero");
    }
    Algebra<SU2<T>> e;
    e.a = sym("e", 0), e.b = sym("e", 1), e.c = sym("e", 2);
    double q2 = (e.a * e.a + e.b * e.b + e.c * e.c) * 0.25;
    x = e.exp();
    auto y = chexp(e), z = exp(e);
    EQ(x.det(), 1, "exponential of an algebra element has unit determinant");
    if (q2 <= 0) {
        EQ(x.d, 1, "exp(0)"), EQ(x.a, 0, "exp(0)"), EQ(x.b, 0, "exp(0)"), EQ(x.c, 0, "exp(0)");
    } else {
        double q = sqrt(q2);
        EQ(x.d, cos(q), "exp of an algebra element"), EQ(x.a, sin(q) / q * e.a / 2, "exp of an algebra element"), EQ(x.b, sin(q) / q * e.b / 2, "exp of an algebra element"), EQ(x.c, sin(q) / q * e.c / 2, "exp of an algebra element");
    }
    EQ(y.a, x.a, "chexp"), EQ(y.d, x.d, "chexp"), EQ(z.b, x.b, "exp"), EQ(z.c, x.c, "exp");
}
template <typename T> static void u1() {
    U1<T> u, v;
    u.phase = sym("u", 0), v.phase = sym("v", 0);
    double x = u.phase, y = v.phase;
    auto c = u.complex();
    EQ(c.re, cos(x), "complex"), EQ(c.im, sin(x), "complex");
    EQ(u.real(), cos(x), "real"), EQ(u.imag(), sin(x), "imag"), EQ(real(u), cos(x), "real"), EQ(imag(u), sin(x), "imag");
    EQ(u.conj().phase, -x, "conj"), EQ(u.dagger().phase, -x, "dagger"), EQ(conj(u).phase, -x, "conj");
    EQ((+u).phase, x, "plus"), EQ((-u).phase, x + M_PI, "negative");
    EQ((u * v).phase, x + y, "product");
    auto w = u;
    w *= v;
    EQ(w.phase, x + y, "*=");
    Complex<double> z(sym("z", 0), sym("z", 1));
    auto p = u * z, q = z * u;
    EQ(p.re, cos(x) * z.re - sin(x) * z.im, "product with a complex number"), EQ(p.im, cos(x) * z.im + sin(x) * z.re, "product with a complex number");
    EQ(q.re, p.re, "product with a complex number"), EQ(q.im, p.im, "product with a complex number");
    u.set_phase(y), EQ(u.phase, y, "set_phase");
    u.set_phase(z), EQ(u.phase, z.arg(), "set_phase of a complex number");
    U1<T> n(nullptr);
    EQ(n.phase, 0, "from 0");
    EQ(hila::cast_to<float>(v).phase, y, "cast");
}
extern "C" void hs_main() {
    switch (hs_parami("what", 0)) {
    case 0: vectors<double>(); break;
    case 1: projections<double>(); break;
    case 2: generators(); break;
    case 3: bilinear(); break;
    case 4: conjugations(); break;
    case 5: vectors<float>(); projections<float>(); break;
    case 10: quaternions<double, double>(); break;
    case 11: quaternions<float, float>(); break;
    case 12: quaternions<double, float>(); break;
    case 13: su2algebra<double>(); break;
    case 14: su2algebra<float>(); break;
    case 15: su2exp<double>(); break;
    case 16: su2exp<float>(); break;
    case 17: u1<double>(); break;
    case 18: u1<float>(); break;
    }
    hs_reach("end");
}
