// Sum and product reductions: every process gets the previous value combined with each site of the loop exactly once.
#include "hv.h"
static CoordinateVector L;
static long V;
static bool in(const CoordinateVector &c, Parity p) { return p == ALL || c.parity() == p; }
template <typename T> static T total(const char *n, Parity p) {
    T s;
    s = 0;
    for (long k = 0; k < V; k++)
        if (in(hv_coord(k, L), p)) s += hv_val<T>(n, k);
    return s;
}
template <typename T> static T init(int k) {
    T x;
    hv_put(x, "init", k);
    return x;
}
static Parity choose_par() {
    int pp = (int)hs_choose("par", 0, 0, 2);
    return pp == 0 ? ALL : pp == 1 ? EVEN : ODD;
}
template <typename T> static void plain(const Field<T> &f, const Field<T> &g, Parity par) {
    T s = init<T>(0), t = init<T>(1), u = init<T>(0);
    onsites(par) s += f[X];
    T want = total<T>("f", par);
    want += init<T>(0);
    hv_eq(s, want, "plain sum");
    // several reductions in one loop, one of them with a condition and one of an expression
    s = init<T>(0);
    double n = 0;
    int ni = 3;
    onsites(par) {
        s += f[X] + g[X];
        t += 2 * g[X];
        n += 1;
        ni += 1;
    }
    T w2 = total<T>("f", par), w3 = total<T>("g", par);
    w2 += w3;
    w2 += init<T>(0);
    hv_eq(s, w2, "first of several sums");
    T w4 = w3;
    w4 += w3;
    w4 += init<T>(1);
    hv_eq(t, w4, "second of several sums");
    long cnt = 0;
    for (long k = 0; k < V; k++) cnt += in(hv_coord(k, L), par);
    hv_eq(n, (double)cnt, "double count");
    hv_eq(ni, (int)cnt + 3, "int count");
    // result on the root only, and only for the next reduction
    s = init<T>(0);
    hila::set_allreduce(false);
    onsites(par) s += f[X];
    if (hila::myrank() == 0) hv_eq(s, want, "sum without allreduce, on the root");
    onsites(opp_parity(par)) u += f[X];
    T w5 = total<T>("f", opp_parity(par));
    w5 += init<T>(0);
    hv_eq(u, w5, "sum after one without allreduce");
    hv_eq(f.sum(par), total<T>("f", par), "Field::sum");
}
template <typename T> static void special(const Field<T> &f, const Field<T> &g, Parity par) {
    int mode = (int)hs_choose("mode", 0, 0, 7);
    bool all = !(mode & 1);
    Reduction<T> r(init<T>(0)), q;
    r.allreduce(all).nonblocking(mode & 2).delayed(mode & 4);
    q.allreduce(all).nonblocking(!(mode & 2)).delayed(mode & 4);
    q = init<T>(1);
    onsites(par) { r += f[X]; q += g[X]; }
    onsites(ALL) r += g[X];
    T w = total<T>("f", par), wq = total<T>("g", par);
    w += total<T>("g", ALL);
    w += init<T>(0);
    wq += init<T>(1);
    if (mode & 4) { r.start_reduce(); q.start_reduce(); }
    T v = r.value(), vq = q.value();
    if (all || hila::myrank() == 0) {
        hv_eq(v, w, "Reduction");
        hv_eq(vq, wq, "second Reduction");
    }
    // used again without assignment: goes on from the previous value
    onsites(par) r += g[X];
    onsites(EVEN) r += f[X];
    w += total<T>("g", par);
    w += total<T>("f", EVEN);
    v = r.value();
    if (all || hila::myrank() == 0) hv_eq(v, w, "Reduction used again");
    // and after assignment
    r = init<T>(2);
    onsites(par) r += f[X];
    w = total<T>("f", par);
    w += init<T>(2);
    v = r.value();
    if (all || hila::myrank() == 0) hv_eq(v, w, "Reduction after assignment");
}
// what is done with a reduction while it is under way (non-blocking) or put off (delayed)
template <typename T> static void midway(const Field<T> &f, const Field<T> &g, Parity par) {
    int mode = (int)hs_choose("mode", 0, 0, 7), act = (int)hs_choose("act", 0, 0, 5);
    bool all = !(mode & 1), see = all || hila::myrank() == 0;
    T w;
    {
        Reduction<T> r;
        r.allreduce(all).nonblocking(mode & 2).delayed(mode & 4);
        onsites(par) r += f[X];
        w = total<T>("f", par);
        switch (act) {
        case 0: // assigned
            r = init<T>(0);
            w = init<T>(0);
            break;
        case 1: // delayed ones started, then assigned
            r.start_reduce();
            r = init<T>(0);
            w = init<T>(0);
            break;
        case 2: // started twice
            r.start_reduce();
            r.start_reduce();
            break;
        case 3: { // read twice
            T v = r.value();
            if (see) hv_eq(v, w, "value");
            break;
        }
        case 4: { // another reduction in between
            Reduction<T> q(init<T>(1));
            q.allreduce(!all).nonblocking(mode & 4).delayed(mode & 2);
            onsites(ALL) q += g[X];
            T v = q.value(), wq = total<T>("g", ALL);
            wq += init<T>(1);
            if (!all || hila::myrank() == 0) hv_eq(v, wq, "reduction inside another one");
            break;
        }
        case 5: // an assignment by set()
            r.set(init<T>(2));
            w = init<T>(2);
            break;
        }
        // an assigned value is meant for the next loop: before that only the root holds it
        int tail = (int)hs_choose("tail", 0, 0, 2);
        if (tail == 0 && act != 2 && act != 3 && act != 4) tail = 1;
        if (tail < 2) {
            if (tail) {
                onsites(ALL) r += g[X];
                w += total<T>("g", ALL);
            }
            r.reduce();
            T v = r.value();
            if (see) hv_eq(v, w, "Reduction after an action midway");
        }
    } // destroyed, possibly under way
    T s = init<T>(0), ws = total<T>("g", par);
    onsites(par) s += g[X];
    ws += init<T>(0);
    hv_eq(s, ws, "plain sum after it");
}
template <typename T> static void prod(const Field<T> &f, const Field<T> &g, Parity par) {
    T p = init<T>(0), q = 2, s = init<T>(1);
    onsites(par) p *= f[X];
    T w = init<T>(0), wq = 2, ws = init<T>(1);
    for (long k = 0; k < V; k++)
        if (in(hv_coord(k, L), par)) { w *= hv_val<T>("f", k); ws += hv_val<T>("f", k); wq *= hv_val<T>("g", k); }
    hv_eq(p, w, "plain product");
    onsites(par) { q *= g[X]; s += f[X]; }
    hv_eq(q, wq, "product next to a sum");
    hv_eq(s, ws, "sum next to a product");
    w = 1;
    for (long k = 0; k < V; k++)
        if (in(hv_coord(k, L), par)) w *= hv_val<T>("f", k);
    hv_eq(f.product(par), w, "Field::product");
}
template <typename T> static void run(int what) {
    Field<T> f, g;
    Parity par = choose_par();
    hv_fill(f, "f");
    hv_fill(g, "g");
    if (what == 0) plain(f, g, par);
    if (what == 1) special(f, g, par);
    if (what == 3) midway(f, g, par);
    if constexpr (std::is_arithmetic<T>::value) {
        if (what == 2) prod(f, g, par);
    }
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    int what = (int)hs_parami("what", 0);
#ifdef NONSCALAR
    if (hs_parami("type", 0) == 0) run<Complex<double>>(what);
    else if (hs_parami("type", 0) == 1) run<Vector<2, double>>(what);
    else run<Matrix<2, 2, Complex<float>>>(what);
#else
    if (hs_parami("type", 0) == 0) run<double>(what);
    else if (hs_parami("type", 0) == 1) run<float>(what);
    else if (hs_parami("type", 0) == 2) run<int>(what);
    else run<long>(what);
#endif
    hs_reach("end");
}
