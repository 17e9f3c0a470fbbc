// Random helpers: range, use of the numbers, permutations, seeds.
#include "hv.h"
static const double two64 = 18446744073709551616.0;
static double number(long i) { return (double)(unsigned long)hs_int("draw", hs_rank() * 100000L + i, -__LONG_MAX__ - 1, __LONG_MAX__) / two64; } // the i:th draw as a number (real mode)
static void start() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    hila::seed_random(5);
}
// hila::random() for every draw
static void range() {
    hs_rng_mode(1, hs_rank());
    double x = hila::random(), y = hila::host_random();
    hs_check(x >= 0.0, "random() is not negative");
    hs_check(x < 1.0, "random() is less than 1");
    hs_check(y >= 0.0 && y < 1.0, "host_random() is in [0,1)");
    hs_eq_i64(hs_rng_count(), 2, "one draw for each number");
    hs_reach("range");
}
template <typename A> static void permuted(A a, const char *w) {
    int n = a.size();
    std::array<int, 8> seen;
    for (int i = 0; i < n; i++) seen[i] = 0;
    A b = a;
    hila::shuffle(b);
    hs_eq_i64(b.size(), n, "shuffle keeps the size");
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) seen[i] += b[j] == a[i];
    for (int i = 0; i < n; i++) hs_check(seen[i] == 1, w);
    hs_eq_i64(hs_rng_count(), n > 0 ? n - 1 : 0, "draws of shuffle");
}
static void shuffles() {
    hs_rng_mode(1, hs_rank());
    int n = hs_parami("n", 3);
    if (n == 3) {
        std::array<int, 3> a = {5, -7, 100};
        permuted(a, "shuffled array is a permutation");
    } else {
        std::vector<long> v;
        for (int i = 0; i < n; i++) v.push_back(10 - 3 * i);
        permuted(v, "shuffled vector is a permutation");
    }
    hs_reach("shuffles");
}
// the same permutation on all processes, of all directions
static void dirs() {
    start();
    hs_rng_mode(1, hs_rank());
    int what = hs_parami("list", 0);
    long code[2] = {0, 0}, n = hs_nranks();
    if (what == 0) {
        auto a = hila::shuffle_directions();
        int seen = 0;
        for (auto d : a) { seen |= 1 << (int)d; code[0] = code[0] * 16 + (int)d; }
        hs_check(seen == (1 << NDIM) - 1 && a.size() == NDIM, "shuffle_directions has every direction");
    } else if (what == 1) {
        auto a = hila::shuffle_parities();
        hs_check(a.size() == 2 && ((a[0] == EVEN && a[1] == ODD) || (a[0] == ODD && a[1] == EVEN)), "shuffle_parities has both parities");
        code[0] = a[0] == EVEN;
    } else {
        auto a = hila::shuffle_directions_and_parities();
        int seen = 0;
        for (auto d : a) {
            hs_check(d.parity == EVEN || d.parity == ODD, "parity");
            seen |= 1 << (2 * (int)d.direction + (d.parity == ODD));
            code[0] = code[0] * 16 + 2 * (int)d.direction + (d.parity == ODD);
        }
        hs_check(seen == (1 << 2 * NDIM) - 1 && a.size() == 2 * NDIM, "shuffle_directions_and_parities has every combination");
    }
    code[1] = code[0] * code[0];
    long c = code[0];
    hs_allsum(code, 2);
    hs_check(code[0] == n * c && code[1] == n * c * c, "the same order on all processes");
    hs_reach("dirs");
}
// pairs of Gaussian numbers (real arithmetic)
static void gauss() {
    hs_rng_mode(1, hs_rank());
    double u[4], r0, p0, r1, p1, b;
    for (int i = 0; i < 4; i++) u[i] = number(i);
    for (int i = 0; i < 4; i++) hs_assume(u[i] >= 0 && u[i] < 1);
    p0 = 2.0 * M_PI * u[0], r0 = sqrt(-::log(1.0 - u[1]) * 2.0);
    p1 = 2.0 * M_PI * u[2], r1 = sqrt(-::log(1.0 - u[3]) * 2.0);
    if (hs_parami("pair", 0)) {
        double a = hila::gaussrand2(b);
        hs_eq_f64(a, r0 * sin(p0), "first Gaussian number");
        hs_eq_f64(b, r0 * cos(p0), "second Gaussian number");
        a = hila::gaussrand2(b);
        hs_eq_f64(a, r1 * sin(p1), "third Gaussian number");
        hs_eq_f64(b, r1 * cos(p1), "fourth Gaussian number");
    } else {
        hs_eq_f64(hila::gaussrand(), r0 * sin(p0), "first Gaussian number");
        hs_eq_f64(hila::gaussrand(), r0 * cos(p0), "second Gaussian number");
        hs_eq_f64(hila::gaussrand(), r1 * sin(p1), "third Gaussian number");
        hs_eq_f64(hila::gaussrand(), r1 * cos(p1), "fourth Gaussian number");
    }
    hs_eq_i64(hs_rng_count(), 4, "draws of two pairs");
    hs_reach("gauss");
}
// components of types: the Gaussian numbers in order, times the width
static double gnum[16];
static void gtypes() {
    hs_rng_mode(1, hs_rank());
    for (int i = 0; i < 8; i++) {
        double u = number(2 * i), w = number(2 * i + 1);
        hs_assume(u >= 0 && u < 1);
        hs_assume(w >= 0 && w < 1);
        double p = 2.0 * M_PI * u, r = sqrt(-::log(1.0 - w) * 2.0);
        gnum[2 * i] = r * sin(p);
        gnum[2 * i + 1] = r * cos(p);
    }
    double w = hs_f64("w", 0, -100, 100);
    switch (hs_parami("type", 0)) {
    case 0: {
        Complex<double> c;
        c.gaussian_random(w);
        hs_eq_f64(c.re, gnum[0] * w, "real part");
        hs_eq_f64(c.im, gnum[1] * w, "imaginary part");
        hila::gaussian_random(c);
        hs_eq_f64(c.re, gnum[2], "real part, unit width");
        hs_eq_f64(c.im, gnum[3], "imaginary part, unit width");
        double d;
        hila::gaussian_random(d, w);
        hs_eq_f64(d, gnum[4] * w, "number");
        d = hila::gaussian_random<double>();
        hs_eq_f64(d, gnum[5], "the other number of the pair");
        break;
    }
    case 1: {
        Matrix<2, 2, double> m;
        m.gaussian_random(w);
        for (int i = 0; i < 4; i++) hs_eq_f64(m.c[i], gnum[i] * w, "elements of a 2x2 matrix");
        Matrix<1, 3, double> h;
        h.gaussian_random(w);
        for (int i = 0; i < 3; i++) hs_eq_f64(h.c[i], gnum[4 + i] * w, "elements of a row vector");
        hs_eq_f64(hila::gaussrand(), gnum[7], "the other number of the pair");
        break;
    }
    case 2: {
        Matrix<2, 1, Complex<double>> m;
        m.gaussian_random(w);
        for (int i = 0; i < 2; i++) {
            hs_eq_f64(m.c[i].re, gnum[2 * i] * w, "elements of a complex vector");
            hs_eq_f64(m.c[i].im, gnum[2 * i + 1] * w, "elements of a complex vector");
        }
        Array<2, 1, Complex<double>> a;
        a.gaussian_random(w);
        for (int i = 0; i < 2; i++) {
            hs_eq_f64(a.c[i].re, gnum[4 + 2 * i] * w, "elements of a complex array");
            hs_eq_f64(a.c[i].im, gnum[5 + 2 * i] * w, "elements of a complex array");
        }
        break;
    }
    case 3: {
        DiagonalMatrix<3, double> g;
        g.gaussian_random(w);
        for (int i = 0; i < 3; i++) hs_eq_f64(g.e(i), gnum[i] * w, "elements of a diagonal matrix");
        Array<3, 1, double> a;
        a.gaussian_random(w);
        for (int i = 0; i < 3; i++) hs_eq_f64(a.c[i], gnum[3 + i] * w, "elements of an array");
        Algebra<SU<2, double>> b;
        b.gaussian_random(w);
        for (int i = 0; i < 3; i++) hs_eq_f64(b.e(i), gnum[6 + i] * w, "coefficients of an algebra vector");
        break;
    }
    }
    hs_reach("gtypes");
}
// each component has a number of its own, in the interval (numbered draws: draw k gives (1000 * rank + k) / 2^64)
static void one(double x, int &seen, int n) {
    double k = x * two64;
    int i = (int)(k - hs_rank() * 100000.0);
    hs_check((double)i + hs_rank() * 100000.0 == k && i >= 1 && i <= n && i <= 30, "component is one of the numbers drawn");
    hs_check(!(seen & (1 << i)), "component has its own number");
    seen |= 1 << i;
}
static void types() {
    start();
    int seen = 0;
    hs_rng_mode(2, hs_rank());
    double d; hila::random(d); one(d, seen, 1);
    d = hila::random<double>(); one(d, seen, 2);
    hs_rng_mode(2, hs_rank()); seen = 0;
    Complex<double> c; hila::random(c); one(c.re, seen, 2); one(c.im, seen, 2);
    hs_rng_mode(2, hs_rank()); seen = 0;
    c.random(); one(c.re, seen, 2); one(c.im, seen, 2);
    hs_rng_mode(2, hs_rank()); seen = 0;
    Matrix<2, 3, double> m; m.random();
    for (int i = 0; i < 6; i++) one(m.c[i], seen, 6);
    hs_rng_mode(2, hs_rank()); seen = 0;
    Matrix<2, 2, Complex<double>> z; hila::random(z);
    for (int i = 0; i < 4; i++) { one(z.c[i].re, seen, 8); one(z.c[i].im, seen, 8); }
    hs_rng_mode(2, hs_rank()); seen = 0;
    auto a = hila::random<Array<3, 1, double>>();
    for (int i = 0; i < 3; i++) one(a.c[i], seen, 3);
    hs_rng_mode(2, hs_rank()); seen = 0;
    Vector<4, double> v; v.random();
    for (int i = 0; i < 4; i++) one(v.c[i], seen, 4);
    hs_rng_mode(2, hs_rank()); seen = 0;
    DiagonalMatrix<3, double> g; g.random();
    for (int i = 0; i < 3; i++) one(g.e(i), seen, 3);
    hs_reach("types");
}
// site loops: each site gets a number of its own, every number is used
static void sites(Parity p) {
    Field<double> f;
    Field<Vector<2, double>> v;
    f = -1;
    onsites(ALL) v[X] = 0;
    hs_rng_mode(2, hs_rank());
    onsites(p) f[X] = hila::random();
    long used = hs_rng_count();
    hs_rng_mode(2, hs_rank());
    onsites(p) v[X].random();
    long usedv = hs_rng_count();
    static char seen[3000];
    long n = 0;
    for (int i = 0; i < 3000; i++) seen[i] = 0;
    for (int i = 0; i < hv_sites(); i++) {
        CoordinateVector c = lattice->coordinates(i);
        if (p != ALL && (c.parity() != p)) { hs_check(f.get_value_at(i) == -1, "other parity is left alone"); continue; }
        int k = (int)(f.get_value_at(i) * two64 - hs_rank() * 100000.0);
        hs_check(k >= 1 && k < 1000 && !seen[k], "each site has a number of its own");
        if (k >= 1 && k < 1000) seen[k] = 1;
        for (int j = 0; j < 2; j++) {
            k = (int)(v.get_value_at(i).e(j) * two64 - hs_rank() * 100000.0);
            hs_check(k >= 1 && k < 1000 && !seen[1000 + k], "each component has a number of its own");
            if (k >= 1 && k < 1000) seen[1000 + k] = 1;
        }
        n++;
    }
    hs_eq_i64(used, n, "one draw for each site");
    hs_eq_i64(usedv, 2 * n, "one draw for each component");
    hs_reach("sites");
}
static void seeds() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    hs_check(!hila::is_rng_seeded(), "not seeded at first");
    unsigned long s = hs_parami("zero", 0) ? 0 : (unsigned long)hs_int("seed", 0, 1, 1L << 62);
    hila::seed_random(s);
    hs_check(hila::is_rng_seeded(), "seeded");
    hs_check(hs_rng_count() >= 0, "count");
    long v[4] = {0, 0, 0, 0}, n = hs_nranks();
    v[hs_rank()] = (long)hs_rng_seed();
    hs_allsum(v, 4);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) hs_check(v[i] != v[j], "processes have different seeds");
    hs_reach("seeds");
}
static void unseeded() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    Field<double> f;
    hs_reach("unseeded");
    hs_allow_exit();
    onsites(ALL) f[X] = hila::random();
    hs_check(0, "a loop with random numbers runs before the generator is seeded");
}
extern "C" void hs_main() {
    switch (hs_parami("what", 0)) {
    case 0: range(); break;
    case 1: shuffles(); break;
    case 2: dirs(); break;
    case 3: gauss(); break;
    case 4: types(); break;
    case 5: start(); sites(ALL); sites(EVEN); sites(ODD); break;
    case 6: seeds(); break;
    case 7: unseeded(); break;
    case 8: gtypes(); break;
    }
    hs_reach("end");
}
