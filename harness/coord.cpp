// Directions, parities and coordinate vectors: the group laws for all operands.
#include "hv.h"
static const int R = 1000000;
static CoordinateVector sym(const char *n, int r = R) {
    CoordinateVector v;
    for (int d = 0; d < NDIM; d++) v.e(d) = (int)hs_int(n, d, -r, r);
    return v;
}
static Direction dir(const char *n) { return (Direction)hs_choose(n, 0, 0, 2 * NDIM - 1); }
// component k of the unit vector of d
static int unit(Direction d, int k) { return (int)d == k ? 1 : (int)d == 2 * NDIM - 1 - k ? -1 : 0; }
template <typename V, typename F> static void all(const V &v, F f, const char *w) {
    for (int k = 0; k < NDIM; k++) hs_eq_i64(v.e(k), f(k), w);
}
static void directions() {
    Direction a = dir("d"), b = dir("e");
    CoordinateVector v = sym("v"), c;
    hs_eq_i64(opp_dir(opp_dir(a)), a, "opposite of the opposite");
    hs_check(opp_dir(a) != a, "opposite differs");
    hs_eq_i64(-a, opp_dir(a), "-dir");
    hs_eq_i64(+a, a, "+dir");
    hs_eq_i64(opp_dir((int)a), opp_dir(a), "opp_dir(int)");
    hs_check(is_up_dir(a) != is_up_dir(-a), "one of dir and -dir is up");
    hs_check(is_up_dir(a) == ((int)a < NDIM) && is_up_dir((int)a) == is_up_dir(a), "is_up_dir");
    hs_check(is_up_dir(abs(a)) && (abs(a) == a || abs(a) == -a), "abs(dir)");
    int dot = 0;
    for (int k = 0; k < NDIM; k++) dot += unit(a, k) * unit(b, k);
    hs_eq_i64(dir_dot_product(a, b), dot, "dir_dot_product");
    hs_check(get_dir_mask(a) == get_dir_mask(b) ? a == b : (get_dir_mask(a) & get_dir_mask(b)) == 0 && a != b, "get_dir_mask");
    std::string na = hila::prettyprint(a), nb = hila::prettyprint(b);
    hs_check((na == nb) == (a == b), "direction names differ");
    hs_check(a == NDIRS - 1 || next_direction(a) == (Direction)(a + 1), "next_direction");
    Direction t = a;
    hs_check(t++ == a && t == (Direction)(a + 1), "dir++");
    t = a;
    hs_check(++t == (Direction)(a + 1) && t == (Direction)(a + 1), "++dir");
    int n = 0;
    foralldir(d) { hs_eq_i64(d, n, "foralldir"); n++; }
    hs_eq_i64(n, NDIM, "foralldir visits every direction");
    all(CoordinateVector(a), [&](int k) { return unit(a, k); }, "CoordinateVector(dir)");
    c = a; all(c, [&](int k) { return unit(a, k); }, "v = dir");
    all(a + b, [&](int k) { return unit(a, k) + unit(b, k); }, "dir + dir");
    all(a - b, [&](int k) { return unit(a, k) - unit(b, k); }, "dir - dir");
    int i = (int)hs_int("i", 0, -R, R);
    all(i * a, [&](int k) { return i * unit(a, k); }, "int * dir");
    all(a * i, [&](int k) { return i * unit(a, k); }, "dir * int");
    all(v + a, [&](int k) { return v.e(k) + unit(a, k); }, "v + dir");
    all(v - a, [&](int k) { return v.e(k) - unit(a, k); }, "v - dir");
    all(a + v, [&](int k) { return v.e(k) + unit(a, k); }, "dir + v");
    all(a - v, [&](int k) { return unit(a, k) - v.e(k); }, "dir - v");
    c = v; c += a; all(c, [&](int k) { return v.e(k) + unit(a, k); }, "v += dir");
    c = v; c -= a; all(c, [&](int k) { return v.e(k) - unit(a, k); }, "v -= dir");
    for (int k = 0; k < NDIM; k++) hs_eq_i64(v[abs(a)], v.e((int)abs(a)), "v[dir]");
    bool is = true;
    for (int k = 0; k < NDIM; k++) is = is & (v.e(k) == unit(a, k));
    hs_check((v == a) == is, "v == dir");
    Direction o = (Direction)99;
    bool r = v.is_direction(o), any = false;
    for (int d = 0; d < 2 * NDIM; d++) {
        bool eq = true;
        for (int k = 0; k < NDIM; k++) eq = eq & (v.e(k) == unit((Direction)d, k));
        if (eq) { any = true; hs_check(r && o == (Direction)d, "is_direction returns the direction"); }
    }
    hs_check(r == any, "is_direction");
    CoordinateVector u(a);
    Direction q;
    hs_check(u.is_direction(q) && q == a, "is_direction of a unit vector");
    hs_reach("directions");
}
static void parities() {
    Parity p = (Parity)hs_choose("p", 0, 1, 3);
    hs_check(opp_parity(p) == (p == ALL ? ALL : p == EVEN ? ODD : EVEN), "opp_parity");
    hs_check(~p == opp_parity(p) && opp_parity(opp_parity(p)) == p, "~parity");
    hs_check(is_even_odd_parity(p) == (p != ALL), "is_even_odd_parity");
    hs_check(parity_bits(EVEN) & parity_bits(p) || p == ODD, "parity_bits");
    hs_check(parity_bits_inverse(p) == (3 & ~parity_bits(p)) && (parity_bits(EVEN) | parity_bits(ODD)) == parity_bits(ALL) && !(parity_bits(EVEN) & parity_bits(ODD)), "parity_bits_inverse");
    std::string n = hila::prettyprint(p);
    hs_check(n == (p == ALL ? "ALL" : p == EVEN ? "EVEN" : "ODD"), "parity name");
    CoordinateVector a = sym("a", 500000), b = sym("b", 500000);
    long s = 0, t = 0;
    for (int k = 0; k < NDIM; k++) s += a.e(k), t += b.e(k);
    hs_check(a.parity() == (s % 2 == 0 ? EVEN : ODD), "parity()");
    hs_check((a + b).parity() == (a.parity() == b.parity() ? EVEN : ODD), "parity of a sum");
    hs_check((-a).parity() == a.parity(), "parity of -v");
    Direction d = dir("d");
    hs_check((a + d).parity() == opp_parity(a.parity()), "parity of the neighbour");
    hs_reach("parities");
}
static void vectors() {
    CoordinateVector a = sym("a"), b = sym("b"), c;
    all(a + b, [&](int k) { return a.e(k) + b.e(k); }, "a + b");
    all(a - b, [&](int k) { return a.e(k) - b.e(k); }, "a - b");
    all(-a, [&](int k) { return -a.e(k); }, "-a");
    all(+a, [&](int k) { return a.e(k); }, "+a");
    c = a; c += b; all(c, [&](int k) { return a.e(k) + b.e(k); }, "a += b");
    c = a; c -= b; all(c, [&](int k) { return a.e(k) - b.e(k); }, "a -= b");
    c = a; c += c; all(c, [&](int k) { return 2 * a.e(k); }, "a += a");
    c = a; c -= c; all(c, [&](int k) { return 0; }, "a -= a");
    c = 0; all(c, [&](int k) { return 0; }, "a = 0");
    CoordinateVector z(0); all(z, [&](int k) { return 0; }, "CoordinateVector(0)");
    bool same = true;
    for (int k = 0; k < NDIM; k++) same = same & (a.e(k) == b.e(k));
    hs_check((a == b) == same, "a == b");
    hs_check((a != b) == !same, "a != b");
    int i = (int)hs_int("i", 0, -40, 40);
    all(i * a, [&](int k) { return i * a.e(k); }, "int * a");
    all(a * i, [&](int k) { return i * a.e(k); }, "a * int");
    c = a; c *= i; all(c, [&](int k) { return i * a.e(k); }, "a *= int");
    Vector<NDIM, int> v = a;
    all(v, [&](int k) { return a.e(k); }, "Vector = a");
    c = v; all(c, [&](int k) { return a.e(k); }, "a = Vector");
    CoordinateVector w(v); all(w, [&](int k) { return a.e(k); }, "CoordinateVector(Vector)");
    Vector<NDIM, double> f(a);
    for (int k = 0; k < NDIM; k++) hs_eq_f64(f.e(k), (double)a.e(k), "Vector<double>(a)");
    CoordinateVector_t<long> l;
    for (int k = 0; k < NDIM; k++) l[k] = a.e(k);
    all(l + l, [&](int k) { return 2 * (long)a.e(k); }, "long coordinates");
    long norm = 0;
    for (int k = 0; k < NDIM; k++) norm += a.e(k) < 0 ? -a.e(k) : a.e(k);
    hs_eq_i64(a.norm_L1(), norm, "norm_L1");
    CoordinateVector s = sym("s", 1000), t = sym("t", 1000);
    int dot = 0, sq = 0;
    for (int k = 0; k < NDIM; k++) dot += t.e(k) * s.e(k), sq += s.e(k) * s.e(k);
    hs_eq_i64(s.dot(t), dot, "dot");
    hs_eq_i64(s.squarenorm(), sq, "squarenorm");
    hs_reach("vectors");
}
static void moduli() {
    int n = hs_parami("n", 1000), m = hs_parami("m", 40);
    CoordinateVector a = sym("a", n), b;
    for (int k = 0; k < NDIM; k++) b.e(k) = (int)hs_int("m", k, 1, m);
    CoordinateVector r = a.mod(b);
    bool div = true;
    for (int k = 0; k < NDIM; k++) {
        hs_check(r.e(k) >= 0 && r.e(k) < b.e(k), "mod is in range");
        hs_eq_i64((a.e(k) - r.e(k)) % b.e(k), 0, "mod differs by a multiple");
        hs_eq_i64(pmod(a.e(k), b.e(k)), r.e(k), "pmod");
        div = div & (a.e(k) % b.e(k) == 0);
    }
    hs_check(a.is_divisible(b) == div, "is_divisible");
    hs_reach("moduli");
}
// on a lattice: moduli by the size keep the site; momenta
static void onlattice() {
    CoordinateVector L = hv_size();
    hv_init(L);
    int n = hs_parami("n", 100);
    CoordinateVector a = sym("a", n), r = a.mod(lattice.size());
    CoordinateVector w = hv_wrap(a, L);
    all(r, [&](int k) { return w.e(k); }, "mod(lattice.size())");
    CoordinateVector b = sym("b", n);
    hs_check((a + b).mod(L) == (a.mod(L) + b.mod(L)).mod(L), "mod of a sum");
    CoordinateVector c = hv_coord((long)hs_choose("site", 0, 0, hv_volume(L) - 1), L);
    Vector<NDIM, double> k = c.convert_to_k();
    for (int d = 0; d < NDIM; d++) {
        int q = c.e(d) > L[d] / 2 ? c.e(d) - L[d] : c.e(d);
        hs_eq_f64(k.e(d), 2.0 * M_PI * q / L[d], "convert_to_k");
    }
    hs_reach("onlattice");
}
extern "C" void hs_main() {
    switch (hs_parami("what", 0)) {
    case 0: directions(); break;
    case 1: parities(); break;
    case 2: vectors(); break;
    case 3: moduli(); break;
    case 4: onlattice(); break;
    }
    hs_reach("end");
}
