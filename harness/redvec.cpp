// Reductions into the elements of an array: every site's contribution goes to the element it names.
#include "hv.h"
#include <vector>
static CoordinateVector L;
static long V, nidx, SZ;
static bool in(const CoordinateVector &c, Parity p) { return p == ALL || c.parity() == p; }
// the element named by a site: symbolic for nidx sites
static int idx(long k) {
    long st = nidx ? (V - 1) / nidx : 1;
    if (nidx && k % st == 0 && k / st < nidx) return (int)hs_choose("idx", k, 0, SZ - 1);
    return (int)((k * 7 + 1) % SZ);
}
template <typename T> static T init(long k) {
    T x;
    hv_put(x, "init", k);
    return x;
}
template <typename T> struct Model {
    std::vector<T> v;
    void sum(const char *n, Parity p, int sgn = 1) {
        for (long k = 0; k < V; k++)
            if (in(hv_coord(k, L), p))
                for (int i = 0; i < SZ; i++) {
                    T z = v[i], x = hv_val<T>(n, k);
                    z += x;
                    if (idx(k) == i) v[i] = z;
                }
    }
    void prod(const char *n, Parity p) {
        if constexpr (std::is_arithmetic<T>::value) {
            for (long k = 0; k < V; k++)
                if (in(hv_coord(k, L), p))
                    for (int i = 0; i < SZ; i++)
                        if (idx(k) == i) v[i] *= hv_val<T>(n, k);
        }
    }
    void set(long base) {
        v.resize(SZ);
        for (int i = 0; i < SZ; i++) v[i] = init<T>(base + i);
    }
    void is(ReductionVector<T> &r, bool all, const char *w) {
        if (!all && hila::myrank() != 0) return;
        hs_check((long)r.size() == SZ, "size");
        for (int i = 0; i < SZ; i++) hv_eq(r[i], v[i], w);
    }
};
template <typename T> static void start(ReductionVector<T> &r, Model<T> &m, long base) {
    m.set(base);
    for (int i = 0; i < SZ; i++) r[i] = m.v[i];
}
template <typename T> static void sums(const Field<T> &f, const Field<T> &g, const Field<int> &ix, Parity par) {
    int mode = (int)hs_choose("mode", 0, 0, 7);
    bool all = !(mode & 1), del = mode & 4;
    ReductionVector<T> r((int)SZ), q((int)SZ);
    Model<T> m, w;
    r.allreduce(all).nonblocking(mode & 2).delayed(del);
    q.allreduce(all).nonblocking(!(mode & 2)).delayed(del);
    start(r, m, 0);
    start(q, w, 10);
    onsites(par) {
        int i = ix[X];
        r[i] += f[X];
        q[ix[X]] += g[X];
    }
    m.sum("f", par);
    w.sum("g", par);
    if (!del) {
        r.wait();
        q.wait();
        m.is(r, all, "sum");
        w.is(q, all, "second of two sums");
    }
    onsites(ALL) r[ix[X]] += g[X];
    m.sum("g", ALL);
    if (del && hs_parami("start", 0)) { r.start_reduce(); q.start_reduce(); }
    r.reduce();
    q.reduce();
    m.is(r, all, "sum of two loops");
    w.is(q, all, "second sum");
    // goes on from the previous value
    onsites(par) { r[ix[X]] += g[X]; }
    m.sum("g", par);
    r.reduce();
    r.wait();
    m.is(r, all, "used again");
    // a value assigned with a reduction under way replaces it
    onsites(par) { r[ix[X]] += f[X]; }
    T x = init<T>(30);
    r = x;
    for (int i = 0; i < SZ; i++) m.v[i] = x;
    r.reduce();
    m.is(r, true, "assigned");
    onsites(opp_parity(par)) { r[ix[X]] += f[X]; }
    m.sum("f", opp_parity(par));
    r.reduce();
    m.is(r, all, "sum after assignment");
    // conditions and coordinates
    r = 0;
    for (int i = 0; i < SZ; i++) m.v[i] = 0;
    onsites(ALL) {
        if (X.coordinate(e_x) > 0) r[X.coordinate(e_x) % 3] += f[X];
    }
    for (long k = 0; k < V; k++) {
        int c = hv_coord(k, L)[0];
        if (c > 0) m.v[c % 3] += hv_val<T>("f", k);
    }
    r.reduce();
    m.is(r, all, "condition and coordinate");
}
template <typename T> static void prods(const Field<T> &f, const Field<T> &g, const Field<int> &ix, Parity par) {
    int mode = (int)hs_choose("mode", 0, 0, 7);
    bool all = !(mode & 1), del = mode & 4;
    ReductionVector<T> r((int)SZ), q((int)SZ);
    Model<T> m, w;
    r.allreduce(all).nonblocking(mode & 2).delayed(del);
    q.allreduce(all).nonblocking(mode & 2).delayed(del);
    start(r, m, 0);
    start(q, w, 10);
    onsites(par) {
        r[ix[X]] *= f[X];
        q[ix[X]] += g[X];
    }
    m.prod("f", par);
    w.sum("g", par);
    if (!del) { r.wait(); q.wait(); }
    onsites(opp_parity(par)) r[ix[X]] *= g[X];
    m.prod("g", opp_parity(par));
    r.reduce();
    q.reduce();
    m.is(r, all, "product");
    w.is(q, all, "sum next to a product");
    onsites(par) r[ix[X]] *= g[X];
    m.prod("g", par);
    r.reduce();
    m.is(r, all, "product used again");
}
template <typename T> static void run(int what) {
    Field<T> f, g;
    Field<int> ix;
    hv_fill(f, "f");
    hv_fill(g, "g");
    ix.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) ix.set_value_at(idx(hv_sid(lattice->coordinates(i), L)), i);
    ix.mark_changed(ALL);
    int pp = (int)hs_choose("par", 0, 0, 2);
    Parity par = pp == 0 ? ALL : pp == 1 ? EVEN : ODD;
    if (what == 0) sums(f, g, ix, par);
    if constexpr (std::is_arithmetic<T>::value) {
        if (what == 1) prods(f, g, ix, par);
    }
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    nidx = hs_parami("nidx", 2);
    SZ = 3;
    int t = (int)hs_parami("type", 0), what = (int)hs_parami("what", 0);
    if (t == 0) run<double>(what);
    else if (t == 1) run<int>(what);
    else if (t == 2) run<float>(what);
    else run<Complex<double>>(what);
    hs_reach("end");
}
