// What the generated loops compute, construct by construct: every result is compared with the body evaluated site by site.
#include "hv.h"
#include <vector>
using V2 = Vector<2, double>;
using Cd = Complex<double>;
static CoordinateVector size_;
static double fa(const CoordinateVector &c) { return hv_at<double>("f", c); }
static double ga(const CoordinateVector &c) { return hv_at<double>("g", c); }
static double ha(const CoordinateVector &c) { return hv_at<double>("h", c); }
static float sa(const CoordinateVector &c) { return hv_at<float>("s", c); }
static int na(const CoordinateVector &c) { return hv_at<int>("n", c); }
static V2 va(const CoordinateVector &c) { return hv_at<V2>("v", c); }
static Cd ca(const CoordinateVector &c) { return hv_at<Cd>("c", c); }
// a field whose value decides which way a site goes: symbolic at few sites
static double da(const CoordinateVector &c0) {
    CoordinateVector c = hv_wrap(c0, size_);
    long s = hv_sid(c, size_);
    if (s % 23 == 6 && s < 64) return hs_f64("d", s, -2, 2);
    return (double)((s * 7) % 5 - 2) * 0.75;
}
static int ka(const CoordinateVector &c0) { // small integers 0..3
    CoordinateVector c = hv_wrap(c0, size_);
    long s = hv_sid(c, size_);
    if (s % 31 == 9 && s < 64) return (int)hs_int("k", s, 0, 3);
    return (int)((s * 5 + s / 3) % 4);
}
static bool in(const CoordinateVector &c, Parity p) { return p == ALL || (p == EVEN) == hv_even(c); }
static CoordinateVector st(const CoordinateVector &c, Direction d) { return hv_wrap(c + hv_step(d), size_); }
static void filld(Field<double> &d) {
    d.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) d.set_value_at(da(lattice->coordinates(i)), i);
    d.mark_changed(ALL);
}
static void fillk(Field<int> &k) {
    k.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) k.set_value_at(ka(lattice->coordinates(i)), i);
    k.mark_changed(ALL);
}
static void iseq(double a, double b, const char *w) { hs_eq_f64(a, b, w); }
static void iseq(double a, int b, const char *w) { hs_eq_f64(a, b, w); }
static void iseq(int a, int b, const char *w) { hs_eq_i64(a, b, w); }
#define SITES(c) for (unsigned i_ = 0; i_ < hv_sites(); i_++) for (CoordinateVector c = lattice->coordinates(i_), *once_ = &c; once_; once_ = nullptr)
#define IS(F, x, w) iseq((F).get_value_at(i_), x, w)

// ---- functions for loops -------------------------------------------------------------------------------------------------
template <typename T> T twice(T x) { return 2 * x; }
#pragma hila novector
static double relu(double x) { if (x > 0) return x; return 0; }
#pragma hila novector
static double clip(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
template <typename T> void addto(T &x, const T y) { x += y; }
template <typename T> void setboth(T &x, T &y, T z) { x = z; y = 3 * z; }
template <typename T> T chain(T x, T y) { T t = twice(x); addto(t, y); return t * 2; }
template <typename T> T poly(const T &x) { return x * x + 2 * x; }
template <int n, typename T> T power(T x) { T r = x; for (int i = 1; i < n; i++) r = r * x; return r; }
static double p_weight_(Parity p) { return p == EVEN ? 1 : 2; }
static double walk(Parity p) { return p == EVEN ? 1 : -1; }
static int ipow(int b, int e) { int r = 1; for (int i = 0; i < e; i++) r *= b; return r; }
template <typename T> struct Pair {
    using base_type = hila::arithmetic_type<T>;
    using argument_type = T;
    T a, b;
    T sum() const { return a + b; }
    void swap() { T t = a; a = b; b = t; }
    Pair &shift(const T &x) { a += x; b -= x; return *this; }
    Pair operator+(const Pair &o) const { Pair r; r.a = a + o.a; r.b = b + o.b; return r; }
    T &first() { return a; }
};
template <typename T> T total(const Pair<T> &p) { return p.sum() * 2; }
template <typename T> void reset(out_only T &x) { x = 7; }
struct Model {
    Field<double> phi, pi;
    double mass = 0.5;
    double coef[3] = {1, 2, 3};
    void evolve(double eps, Parity p) {
        onsites(p) {
            pi[X] -= eps * mass * phi[X];
            phi[X] += eps * pi[X] * coef[1];
        }
    }
    double energy() const {
        double e = 0;
        onsites(ALL) e += phi[X] * phi[X] + mass * pi[X];
        return e;
    }
    template <typename T> void add(const Field<T> &o) { onsites(ALL) phi[X] += o[X] * coef[2]; }
};
template <typename T> void axpy(Field<T> &r, const T a, const Field<T> &x, Parity p) {
    onsites(p) r[X] = a * x[X] + r[X];
}
template <typename T> void average(const Field<T> &x, Field<T> &r) {
    r = 0;
    foralldir(d) onsites(ALL) r[X] += x[X + d] + x[X - d];
}
static Parity other(Parity p) { return opp_parity(p); }
template <int n> void ncopy(Field<double> &r, const Field<double> &x) {
    for (int i = 0; i < n; i++) {
        onsites(ALL) {
            double t = x[X] * (i + 1);
            r[X] += t;
        }
    }
}

// ---- tests ---------------------------------------------------------------------------------------------------------------
static Direction dir;
static Parity par;
static void t_assign(Field<double> &f, Field<double> &g, Field<double> &h) {
    double a = hs_f64("a", 0, -3, 3);
    f[par] = 2 * g[X + dir] - a * h[X] + g[X - dir] * h[X + dir];
    SITES(c) IS(f, in(c, par) ? 2 * ga(st(c, dir)) - a * ha(c) + ga(st(c, -dir)) * ha(st(c, dir)) : fa(c), "one line assignment");
    onsites(par) {
        f[X] = g[X];
        f[X] += h[X];
        f[X] *= a;
        f[X] -= h[X + dir];
        g[X] = f[X] + 1;
        f[X] = -f[X];
    }
    SITES(c) {
        double v = (ga(c) + ha(c)) * a - ha(st(c, dir));
        if (in(c, par)) IS(f, -v, "sequence of assignments");
        IS(g, in(c, par) ? v + 1 : ga(c), "sequence of assignments");
        IS(h, ha(c), "a field that is only read");
    }
}
static void t_local(Field<double> &f, Field<double> &g, Field<double> &h) {
    int n = 3;
    onsites(par) {
        auto t = f[X];
        f[X] = g[X];
        g[X] = t;
        double loc[3] = {1, t, h[X]};
        double sum = 0, prod = 1;
        for (int i = 0; i < n; i++) {
            if (i == 1) continue;
            sum += loc[i] * (i + 1);
        }
        int j = 0;
        while (true) {
            prod *= 1 + loc[j];
            j++;
            if (j >= 2) break;
        }
        do {
            j--;
            sum += 10;
        } while (j > 0);
        h[X] = sum + prod;
        {
            double t = 5; // hides the other
            f[X] += t;
        }
        g[X] += t;
    }
    SITES(c) {
        bool p = in(c, par);
        IS(f, p ? ga(c) + 5 : fa(c), "exchange through a local variable");
        IS(g, p ? 2 * fa(c) : ga(c), "exchange through a local variable");
        IS(h, p ? 1 + 3 * ha(c) + 20 + 2 * (1 + fa(c)) : ha(c), "loops over local variables");
    }
}
static void t_dirs(Field<double> &f, Field<double> &g, Field<double> &h) {
    Field<double> r = h;
    onsites(par) {
        f[X] = 0;
        foralldir(d) f[X] += ((int)d + 1) * (g[X + d] - h[X - d]);
        double m = 0;
        for (Direction d = e_x; d < NDIRS; ++d) m += g[X + d] * ((int)d + 2);
        r[X] = 0;
        r[X] = m;
    }
    SITES(c) {
        double e = 0, m = 0;
        foralldir(d) e += ((int)d + 1) * (ga(st(c, d)) - ha(st(c, -d)));
        for (Direction d = e_x; d < NDIRS; ++d) m += ga(st(c, d)) * ((int)d + 2);
        IS(f, in(c, par) ? e : fa(c), "directions of a loop inside");
        if (!in(c, par)) IS(r, ha(c), "directions of a loop inside");
        else IS(r, m, "all directions of a loop inside");
    }
}
static void t_self(Field<double> &f, Field<double> &g) {
    Parity p = par == ALL ? ODD : par;
    // every site of one parity from its neighbours of the other, in place
    onsites(p) {
        double s = f[X];
        foralldir(d) s += f[X + d] + 2 * f[X - d];
        f[X] = s + g[X];
    }
    onsites(other(p)) {
        f[X] = f[X + dir] - f[X];
    }
    bool evn = true;
    foralldir(d) if (size_[d] % 2) evn = false;
    if (evn) SITES(c) {
        CoordinateVector b = in(c, p) ? c : st(c, dir);
        double s = fa(b) + ga(b);
        foralldir(d) s += fa(st(b, d)) + 2 * fa(st(b, -d));
        IS(f, in(c, p) ? s : s - fa(c), "checkerboard update");
    }
}
static void t_offset(Field<double> &f, Field<double> &g, Field<double> &h) {
    CoordinateVector w;
    foralldir(d) w[d] = (int)d - 1;
    w[0] = 2;
    f[par] = g[X + e_x - e_y] + 2 * h[X + w] - 3 * g[X - w] + 5 * h[X + dir + dir];
    SITES(c) IS(f, in(c, par) ? ga(c + hv_step(e_x) + hv_step(-e_y)) + 2 * ha(c + w) - 3 * ga(c - w) + 5 * ha(c + hv_step(dir) + hv_step(dir)) : fa(c), "offsets");
}
static void t_coord(Field<double> &f, Field<double> &g, Field<double> &h, Field<int> &n) {
    Direction ad = (int)dir < NDIM ? dir : -dir;
    onsites(par) {
        CoordinateVector cv = X.coordinates();
        if (X.coordinate(e_x) == 1) {
            f[X] = g[X];
        } else if (X.y() == 2 || cv[1] == 0) {
            f[X] = 2 * h[X];
            g[X] = 0;
        } else {
            h[X] = X.x() + 10 * X.coordinate(ad);
        }
        if (X.parity() == EVEN) n[X] = cv[0] + 100 * cv[1];
        else n[X] = -1;
    }
    SITES(c) {
        bool p = in(c, par), one = p && c[0] == 1, two = p && !one && (c[1] == 2 || c[1] == 0), three = p && !one && !two;
        IS(f, one ? ga(c) : two ? 2 * ha(c) : fa(c), "conditions on coordinates");
        IS(g, two ? 0 : ga(c), "conditions on coordinates");
        IS(h, three ? (double)(c[0] + 10 * c[ad]) : ha(c), "conditions on coordinates");
        hs_eq_i64(n.get_value_at(i_), !p ? na(c) : hv_even(c) ? c[0] + 100 * c[1] : -1, "coordinates in a loop");
    }
    // sums over a part of the lattice
    double wall = 0;
    long count = 0;
    onsites(ALL) if (X.coordinate(ad) == 1) { wall += h[X + ad]; count += 1; }
    double e = 0;
    long ce = 0;
    for (long s = 0; s < hv_volume(size_); s++) {
        CoordinateVector c = hv_coord(s, size_);
        if (c[ad] != 1) continue;
        CoordinateVector u = st(c, ad);
        bool p = in(u, par), three = p && u[0] != 1 && u[1] != 2 && u[1] != 0;
        e += three ? (double)(u[0] + 10 * u[ad]) : ha(u);
        ce++;
    }
    hv_eq(wall, e, "sum over a slice");
    hs_eq_i64(count, ce, "sum over a slice");
}
static void t_cond(Field<double> &f, Field<double> &g, Field<double> &h, Field<double> &d, Field<int> &k) {
    onsites(par) {
        if (d[X] > 0.5) {
            f[X] = g[X];
            if (d[X] > 1) f[X] += 1;
        } else if (d[X] < -1 && k[X] != 2) {
            f[X] += h[X];
        }
        switch (k[X]) {
        case 0: g[X] = 5; break;
        case 1: g[X] = 6; // and on
        case 2: g[X] += h[X]; break;
        default: g[X] = -g[X];
        }
        h[X] = (d[X] >= 0) ? d[X] : -h[X];
        if (!(d[X] == 0 || k[X] == 3)) k[X] = k[X] > 1 ? 50 : k[X] + 1;
    }
    SITES(c) {
        bool p = in(c, par);
        double x = da(c);
        int q = ka(c);
        double ef = fa(c), eg = ga(c), eh = ha(c);
        int ek = q;
        if (p) {
            if (x > 0.5) ef = x > 1 ? ga(c) + 1 : ga(c);
            else if (x < -1 && q != 2) ef += ha(c);
            eg = q == 0 ? 5 : q == 1 ? 6 + ha(c) : q == 2 ? ga(c) + ha(c) : -ga(c);
            eh = x >= 0 ? x : -ha(c);
            if (!(x == 0 || q == 3)) ek = q > 1 ? 50 : q + 1;
        }
        IS(f, ef, "conditions on contents");
        IS(g, eg, "switch on contents");
        IS(h, eh, "conditional expression");
        hs_eq_i64(k.get_value_at(i_), ek, "leaving a site early");
    }
}
// a write that happens at some sites only, of a field not read in the loop
static void t_write(Field<double> &f, Field<double> &g, Field<int> &n, Field<double> &d, Field<V2> &v) {
    bool yes = hs_int("yes", 0, 0, 1) != 0;
    onsites(par) if (d[X] > 0.5) f[X] = 3;
    onsites(par) {
        if (yes) g[X] = 1;
        if (d[X] < 0) n[X] = 4;
        for (int i = 0; i < (d[X] > 1 ? 0 : 1); i++) v[X].fill(2);
    }
    SITES(c) {
        bool p = in(c, par);
        double x = da(c);
        IS(f, p && x > 0.5 ? 3 : fa(c), "written at some sites only");
        IS(g, p && yes ? 1 : ga(c), "written if a loop-independent condition holds");
        hs_eq_i64(n.get_value_at(i_), p && x < 0 ? 4 : na(c), "written at some sites only");
        V2 e = va(c), y = v.get_value_at(i_);
        if (p && !(x > 1)) e.fill(2);
        hv_eq(y, e, "written at some sites only");
    }
    // neighbours in a condition
    onsites(par) if (d[X + dir] > d[X]) f[X] = g[X + dir] + 1;
    SITES(c) {
        bool p = in(c, par);
        double o = p && da(c) > 0.5 ? 3 : fa(c), u = in(st(c, dir), par) && yes ? 1 : ga(st(c, dir));
        IS(f, p && da(st(c, dir)) > da(c) ? u + 1 : o, "condition on a neighbour");
    }
}
static void t_func(Field<double> &f, Field<double> &g, Field<double> &h, Field<double> &d) {
    Field<double> o = h;
    onsites(par) {
        f[X] = twice(f[X]) + chain(g[X], o[X + dir]);
        addto(g[X], h[X]);
        double a, b;
        setboth(a, b, h[X]);
        h[X] = a + b;
        addto(h[X], poly(a));
    }
    onsites(par) d[X] = relu(d[X]) + clip(d[X], -1, 1);
    SITES(c) {
        bool p = in(c, par);
        IS(f, p ? 2 * fa(c) + 4 * ga(c) + 2 * ha(st(c, dir)) : fa(c), "functions");
        IS(g, p ? ga(c) + ha(c) : ga(c), "function that changes its argument");
        IS(h, p ? 6 * ha(c) + ha(c) * ha(c) : ha(c), "template function");
        double x = da(c), r = x > 0 ? x : 0, k = x < -1 ? -1 : x > 1 ? 1 : x;
        IS(d, p ? r + k : x, "function with a condition");
    }
    onsites(par) {
        reset(f[X]);
        g[X] = power<3>(g[X]);
        if (walk(X.parity()) > 0) h[X] = 1;
    }
    SITES(c) {
        bool p = in(c, par);
        double o = ga(c) + ha(c);
        if (p) IS(f, 7, "function that only writes its argument");
        if (p) IS(g, o * o * o, "template function");
        if (p && hv_even(c)) IS(h, 1, "function of the parity");
    }
}
static void t_int(Field<int> &n, Field<int> &k, Field<double> &f) {
    onsites(par) {
        n[X] = (X.coordinate(e_x) + 7 * k[X]) % 11;
        n[X] <<= 2;
        n[X] |= k[X] & 1;
        f[X] = n[X] / 4 + 0.5 * k[X];
        if (k[X] & 1) f[X] += 100;
        k[X] = ipow(k[X], 2);
    }
    SITES(c) {
        bool p = in(c, par);
        int q = ka(c), m = na(c);
        if (p) { m = (c[0] + 7 * q) % 11; m *= 4; m |= q & 1; }
        hs_eq_i64(n.get_value_at(i_), m, "integer arithmetic");
        IS(f, p ? m / 4 + 0.5 * q + ((q & 1) ? 100 : 0) : fa(c), "integers and reals");
        hs_eq_i64(k.get_value_at(i_), p ? q * q : q, "integer function");
    }
}
static void t_mixed(Field<double> &f, Field<float> &s, Field<int> &n, Field<Cd> &c_, Field<V2> &v) {
    Field<Cd> o_ = c_;
    onsites(par) {
        f[X] = f[X] + s[X] * n[X];
        c_[X] = Cd(f[X], s[X]) * conj(o_[X + dir]);
        v[X] = v[X] * f[X] ;
        v[X].e(1) += n[X];
        v[X][0] -= c_[X].im;
        n[X] = 3;
    }
    SITES(c) {
        bool p = in(c, par);
        double ef = fa(c) + sa(c) * na(c);
        IS(f, p ? ef : fa(c), "mixed types");
        Cd z = p ? Cd(ef, sa(c)) : ca(c);
        if (p) { Cd o = ca(st(c, dir)); z = Cd(ef * o.re + sa(c) * o.im, sa(c) * o.re - ef * o.im); }
        hv_eq(c_.get_value_at(i_), z, "mixed types");
        V2 w = va(c);
        if (p) { w.e(0) = w.e(0) * ef - z.im; w.e(1) = w.e(1) * ef + na(c); }
        hv_eq(v.get_value_at(i_), w, "elements of a vector at a site");
        hs_eq_i64(n.get_value_at(i_), p ? 3 : na(c), "mixed types");
    }
}
static void t_struct(Field<double> &f, Field<double> &g) {
#ifndef NOPAIR
    Field<Pair<double>> q;
    onsites(ALL) {
        q[X].a = f[X];
        q[X].b = g[X];
    }
    Field<Pair<double>> q0 = q;
    onsites(par) {
        q[X].shift(g[X]).swap();
        auto r = q[X] + q0[X + dir];
        f[X] = total(r) - q[X].sum();
        q[X].first() = 1;
    }
    Parity o = par;
    SITES(c) IS(f, in(c, o) ? fa(c) + ga(c) + 2 * (fa(st(c, dir)) + ga(st(c, dir))) : fa(c), "user type with methods");
    SITES(c) {
        auto r = q.get_value_at(i_);
        hs_eq_f64(r.a, in(c, o) ? 1 : fa(c), "method that returns a reference");
        hs_eq_f64(r.b, in(c, o) ? fa(c) + ga(c) : ga(c), "methods that change the object");
    }
#endif
}
static void t_class(Field<double> &g) {
    Model m;
    hv_fill(m.phi, "f");
    hv_fill(m.pi, "h");
    double eps = hs_f64("eps", 0, -1, 1);
    m.evolve(eps, par);
    SITES(c) {
        double e = in(c, par) ? ha(c) - eps * 0.5 * fa(c) : ha(c);
        IS(m.pi, e, "loop in a method");
        IS(m.phi, in(c, par) ? fa(c) + eps * e * 2 : fa(c), "loop in a method");
    }
    m.add(g);
    double en = m.energy(), x = 0;
    for (long s = 0; s < hv_volume(size_); s++) {
        CoordinateVector c = hv_coord(s, size_);
        double e = in(c, par) ? ha(c) - eps * 0.5 * fa(c) : ha(c), p = (in(c, par) ? fa(c) + eps * e * 2 : fa(c)) + 3 * ga(c);
        x += p * p + 0.5 * e;
    }
    hv_eq(en, x, "reduction in a method");
}
static void t_extern(Field<double> &f, Field<double> &g) {
    double arr[4] = {hs_f64("arr", 0, -3, 3), 2, 3, 4};
    std::vector<double> vec = {5, hs_f64("arr", 1, -3, 3), 7};
    V2 w;
    w.e(0) = hs_f64("arr", 2, -3, 3);
    w.e(1) = 4;
    Model m;
    Field<double> u[NDIM];
    foralldir(d) {
        u[d] = g;
        u[d][ALL] = u[d][X] * ((int)d + 1) + f[X];
    }
    const double pick = arr[0] * 2;
    for (int i = 0; i < 2; i++) {
        onsites(par) {
            f[X] += arr[i + 1] * g[X] + w.e(0) + m.coef[2];
            f[X] += pick * vec[1] + (i == 0 ? arr[3] : 0);
        }
    }
    onsites(par) {
        double a = 0;
        a = u[0][X + dir] + u[NDIM - 1][X + dir];
        g[X] = a;
    }
    SITES(c) {
        bool p = in(c, par);
        double x = hs_f64("arr", 0, -3, 3), y = hs_f64("arr", 1, -3, 3), z = hs_f64("arr", 2, -3, 3);
        IS(f, p ? fa(c) + 5 * ga(c) + 2 * (z + 3 + 2 * x * y) + 4 : fa(c), "arrays and vectors from outside");
        double a = 0;
        for (int d = 0; d < NDIM; d += NDIM - 1) a += ga(st(c, dir)) * (d + 1) + (p ? fa(st(c, dir)) : fa(st(c, dir)));
        IS(g, p ? a : ga(c), "array of fields");
    }
}
static void t_table(Field<double> &f, Field<double> &g, Field<int> &k) {
    double arr[4] = {hs_f64("arr", 0, -3, 3), 2, 3, hs_f64("arr", 1, -3, 3)};
    onsites(par) {
        f[X] = arr[k[X]] * g[X];
        if (k[X] == 1) g[X] = arr[k[X] + 1];
    }
    SITES(c) {
        bool p = in(c, par);
        int q = ka(c);
        IS(f, p ? arr[q] * ga(c) : fa(c), "table looked up with site values");
        IS(g, p && q == 1 ? 3 : ga(c), "table looked up with site values");
    }
}
static void t_red(Field<double> &f, Field<double> &g, Field<int> &n, Field<double> &d, Field<Cd> &c_, Field<V2> &v) {
    double sum = 2, other_ = 0, pos = 0;
    long cnt = 0;
    int ni = 0;
    Cd cs = Cd(1, 2);
    V2 vs(0);
    onsites(par) {
        double t = g[X + dir] - f[X];
        sum += t;
        other_ += twice(t);
        ni += n[X];
        cs += c_[X];
        vs += v[X] * 2;
    }
    onsites(par) {
        if (d[X] > 0) {
            pos += f[X];
            cnt += 1;
        } else pos -= 1;
    }
    double es = 2, eo = 0, ep = 0;
    long ec = 0;
    int en = 0;
    Cd ez = Cd(1, 2);
    V2 ev(0);
    for (long s = 0; s < hv_volume(size_); s++) {
        CoordinateVector c = hv_coord(s, size_);
        if (!in(c, par)) continue;
        es += ga(st(c, dir)) - fa(c);
        eo += 2 * (ga(st(c, dir)) - fa(c));
        en += na(c);
        ez += ca(c);
        ev += va(c) * 2;
        if (da(c) > 0) { ep += fa(c); ec++; } else ep -= 1;
    }
    hv_eq(sum, es, "sum");
    hv_eq(other_, eo, "second sum");
    hs_eq_i64(ni, en, "integer sum");
    hv_eq(cs, ez, "complex sum");
    hv_eq(vs, ev, "vector sum");
    hv_eq(pos, ep, "conditional sum");
    hs_eq_i64(cnt, ec, "conditional count");
}
static void t_templ(Field<double> &f, Field<double> &g, Field<double> &h, Field<Cd> &c_) {
    double a = hs_f64("a", 0, -3, 3);
    axpy(f, a, g, par);
    Field<Cd> z = c_;
    axpy(z, Cd(a, 1), c_, par);
    SITES(c) {
        IS(f, in(c, par) ? a * ga(c) + fa(c) : fa(c), "loop in a template");
        Cd e = ca(c);
        if (in(c, par)) e = Cd(a * e.re - e.im + e.re, a * e.im + e.re + e.im);
        hv_eq(z.get_value_at(i_), e, "loop in a template, complex");
    }
    Field<double> r;
    average(h, r);
    Field<V2> w;
    Field<Cd> y;
    average(c_, y);
    ncopy<3>(g, h);
    SITES(c) {
        double e = 0;
        Cd x = 0;
        foralldir(d) {
            e += ha(st(c, d)) + ha(st(c, -d));
            x += ca(st(c, d)) + ca(st(c, -d));
        }
        IS(r, e, "template with a loop over directions");
        hv_eq(y.get_value_at(i_), x, "template with a loop over directions, complex");
        IS(g, ga(c) + 6 * ha(c), "template with a number");
    }
}
static void t_whole(Field<double> &f, Field<double> &g, Field<double> &h) {
    double a = hs_f64("a", 0, 1, 3);
    Field<double> r = a * f + g * h - 2, q = (f - g) / a, k(g), m;
    k += h;
    k *= a;
    k -= 1;
    m = -r;
    f = 4;
    SITES(c) {
        double er = a * fa(c) + ga(c) * ha(c) - 2;
        IS(r, er, "field arithmetic");
        IS(m, -er, "field arithmetic");
        hs_eq_f64(q.get_value_at(i_) * a, fa(c) - ga(c), "field arithmetic");
        IS(k, (ga(c) + ha(c)) * a - 1, "field arithmetic");
        IS(f, 4, "constant");
        IS(g, ga(c), "operand");
    }
}
static void t_cont(Field<double> &f, Field<double> &g, Field<double> &d) {
    onsites(par) {
        f[X] = 3;
        for (int i = 0; i < 3; i++) {
            if (i == 1) continue;
            f[X] += i;
        }
        if (d[X] > 0) continue;
        g[X] = f[X] + 1;
        if (d[X] < -1) { f[X] = 7; continue; }
        g[X] += 1;
    }
    bool yes = hs_int("yes", 0, 0, 1) != 0;
    Field<double> r = 1;
    onsites(par) {
        r[X] = f[X] + 1;
        if (yes) continue;
        r[X] += 1;
    }
    SITES(c) {
        bool p = in(c, par);
        double x = da(c);
        IS(r, p ? (x < -1 ? 8 : 6) + (yes ? 0 : 1) : 1, "continue with the next site");
        IS(f, p ? (x < -1 ? 7 : 5) : fa(c), "continue with the next site");
        IS(g, p && !(x > 0) ? (x < -1 ? 6 : 7) : ga(c), "continue with the next site");
    }
}
static void t_nest(Field<double> &f, Field<double> &g, Field<double> &h) {
    int n = hs_parami("n", 2);
    for (int i = 0; i < n; i++)
        if (i % 2 == 0) onsites(par) f[X] += (i + 1) * g[X];
        else onsites(opp_parity(par)) f[X] -= h[X + dir];
    Parity ps[2] = {EVEN, ODD};
    for (Parity p : ps) onsites(p) h[X] = h[X] + p_weight_(p);
    SITES(c) {
        double e = fa(c);
        for (int i = 0; i < n; i++) {
            if (i % 2 == 0) { if (in(c, par)) e += (i + 1) * ga(c); }
            else if (in(c, opp_parity(par))) e -= ha(st(c, dir));
        }
        IS(f, e, "loops as statements");
        IS(h, ha(c) + (hv_even(c) ? 1 : 2), "parity from an array");
    }
}
extern "C" void hs_main() {
    size_ = hv_size();
    hv_init(size_);
    size_ = lattice.size();
    static Field<double> f, g, h, d;
    static Field<float> s;
    static Field<int> n, k;
    static Field<V2> v;
    static Field<Cd> c;
    hv_fill(f, "f");
    hv_fill(g, "g");
    hv_fill(h, "h");
    hv_fill(s, "s");
    hv_fill(n, "n");
    hv_fill(v, "v");
    hv_fill(c, "c");
    filld(d);
    fillk(k);
    int what = hs_parami("what", -1);
    if (what < 0) what = (int)hs_choose("t", 0, hs_parami("from", 0), hs_parami("to", 19));
    int p = (int)hs_choose("p", 0, 0, 2);
    par = p == 0 ? ALL : p == 1 ? EVEN : ODD;
    bool one = what == 1 || what == 6 || what == 9 || what == 12 || what == 14 || what == 16 || what == 17 || what == 19;
    dir = (Direction)(one ? 1 : hs_choose("dir", 0, 0, NDIRS - 1));
    switch (what) {
    case 0: t_assign(f, g, h); break;
    case 1: t_local(f, g, h); break;
    case 2: t_dirs(f, g, h); break;
    case 3: t_self(f, g); break;
    case 4: t_offset(f, g, h); break;
    case 5: t_coord(f, g, h, n); break;
    case 6: t_cond(f, g, h, d, k); break;
    case 7: t_write(f, g, n, d, v); break;
    case 8: t_func(f, g, h, d); break;
    case 9: t_int(n, k, f); break;
    case 10: t_mixed(f, s, n, c, v); break;
    case 11: t_struct(f, g); break;
    case 12: t_class(g); break;
    case 13: t_extern(f, g); break;
    case 14: t_table(f, g, k); break;
    case 15: t_red(f, g, n, d, c, v); break;
    case 16: t_templ(f, g, h, c); break;
    case 17: t_whole(f, g, h); break;
    case 19: t_cont(f, g, d); break;
    case 18: t_nest(f, g, h); break;
    }
    hs_reach("end");
}
