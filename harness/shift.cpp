// Arbitrary offsets: f[X + v], Field::shift - for every offset, parity, boundary condition, lattice size and distribution
// over processes.
#include "hv.h"
static unsigned mask;
static CoordinateVector L;
template <typename T> static T want(const char *n, const CoordinateVector &c) {
    int wraps = 0;
    for (int d = 0; d < NDIM; d++)
        if (mask >> d & 1) {
            int q = c[d] / L[d] - (c[d] % L[d] < 0);
            wraps += q;
        }
    T x = hv_at<T>(n, c);
    if (wraps & 1) x = -x;
    return x;
}
template <typename T> static void look(const Field<T> &g, const CoordinateVector &v, Parity par, const char *what) {
    for (unsigned i = 0; i < hv_sites(); i++) {
        CoordinateVector c = lattice->coordinates(i);
        T y = g.get_value_at(i), x = want<T>("f", c + v);
        if (par != ALL && c.parity() != par) x = hv_at<T>("g", c);
        hv_eq(y, x, what);
    }
}
template <typename T> static void run() {
    Field<T> f;
    hv_fill(f, "f");
    for (int k = 0; k < NDIM; k++) f.set_boundary_condition((Direction)k, mask >> k & 1 ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
    CoordinateVector v;
    int m = (int)hs_parami("vmax", 2);
    static const char *nm[] = {"v0", "v1", "v2", "v3"};
    for (int k = 0; k < NDIM; k++) v[k] = hs_parami(nm[k], -1000) != -1000 ? hs_parami(nm[k], 0) : hs_choose("v", k, -m, m);
    int pp = (int)hs_choose("par", 0, 0, 2);
    Parity par = pp == 0 ? ALL : pp == 1 ? EVEN : ODD;
    Field<T> g;
    hv_fill(g, "g");
    g[par] = f[X + v];
    look(g, v, par, "f[X + v]");
    if (hs_parami("light", 0)) return;
    // again with the other parity and more offsets in one loop, after the first one has been kept
    CoordinateVector w = v;
    w[0] += 1;
    Field<T> a, b, c;
    hv_fill(a, "g");
    hv_fill(b, "g");
    hv_fill(c, "g");
    onsites(opp_parity(par)) {
        a[X] = f[X + w];
        b[X] = f[X + v];
        c[X] = f[X - v];
    }
    look(a, w, opp_parity(par), "f[X + v + e_x]");
    look(b, v, opp_parity(par), "f[X + v] with other offsets");
    look(c, -v, opp_parity(par), "f[X - v]");
    // the member functions
    Field<T> s, r = f.shift(v);
    look(r, v, ALL, "shift(v)");
    hv_fill(s, "g");
    f.shift(v, s, par);
    look(s, v, par, "shift(v, res, par)");
    // the source is unchanged
    for (unsigned i = 0; i < hv_sites(); i++) hv_is(f, i, hv_at<T>("f", lattice->coordinates(i)), "source of the shift");
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    mask = (unsigned)(hs_parami("bc", 0) ? hs_choose("mask", 0, 0, (1 << NDIM) - 1) : 0);
    if (hs_parami("type", 0)) run<Vector<2, float>>();
    else run<double>();
    hs_reach("end");
}
