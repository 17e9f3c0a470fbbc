// SiteSelect and SiteValueSelect: each selected coordinate exactly once, with the value given for it.
#include "hv.h"
static CoordinateVector L;
static long V, NSYM;
static bool in(const CoordinateVector &c, Parity p) { return p == ALL || c.parity() == p; }
// is the site selected: symbolic for NSYM sites, a fixed pattern for the others
static int marked(const char *n, long s) {
    if ((s * 5 + 2) % V < NSYM) return (int)hs_int(n, s, 0, 1);
    return (s + (n[1] == '2')) % 3 == 0;
}
static void mark(Field<int> &f, const char *n) {
    f.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) f.set_value_at(marked(n, hv_sid(lattice->coordinates(i), L)), i);
    f.mark_changed(ALL);
}
template <typename S> static void joined(S &s, Parity par, const char *n, long nmax, const char *what) {
    if (hila::myrank() != 0) {
        hs_check(s.size() == 0, "selected sites left on another process after joining");
        return;
    }
    long want = 0, got = (long)s.size();
    for (long k = 0; k < V; k++)
        if (in(hv_coord(k, L), par) && marked(n, k)) want++;
    long keep = want < nmax ? want : nmax;
    hs_check(got == keep, "number of selected sites");
    hs_check((long)s.overflow() == want - keep, "number of sites that did not fit");
    long seen[64];
    for (long k = 0; k < V; k++) seen[k] = 0;
    for (long i = 0; i < got; i++) {
        CoordinateVector c = s.coordinates(i);
        for (int d = 0; d < NDIM; d++) hs_check(c[d] >= 0 && c[d] < L[d], "selected coordinate outside the lattice");
        long k = hv_sid(c, L);
        hs_check(marked(n, k) && in(c, par), "site that is not selected");
        hs_check(!seen[k], "site selected twice");
        seen[k] = 1;
    }
}
template <typename T, typename S> static void values(S &s, const char *n) {
    if (hila::myrank() != 0) return;
    for (size_t i = 0; i < s.size(); i++) {
        T v = s.value(i);
        hv_same(v, hv_val<T>(n, hv_sid(s.coordinates(i), L)), "value of a selected site");
    }
}
template <typename T> static void run() {
    Field<int> m, m2;
    Field<T> f, g;
    hv_fill(f, "f");
    hv_fill(g, "g");
    int pp = (int)hs_choose("par", 0, 0, 2);
    Parity par = pp == 0 ? ALL : pp == 1 ? EVEN : ODD;
    long how = hs_choose("how", 0, 0, 4);
    mark(m, "m");
    mark(m2, "m2");
    SiteSelect s;
    SiteValueSelect<T> sv;
    long nmax = V;
    switch (how) {
    case 0: // both kinds in one loop
        onsites(par) {
            if (m[X]) s.select(X);
            if (m2[X]) sv.select(X, f[X]);
        }
        joined(s, par, "m", V, "");
        joined(sv, par, "m2", V, "");
        values<T>(sv, "f");
        // used again
        onsites(ALL) {
            if (m2[X]) s.select(X);
            if (m[X]) sv.select(X, g[X]);
        }
        joined(s, ALL, "m2", V, "");
        joined(sv, ALL, "m", V, "");
        values<T>(sv, "g");
        break;
    case 1: // maximum size
        nmax = hs_choose("nmax", 0, 0, 5);
        s.max_size(nmax);
        sv.max_size(nmax);
        onsites(par) {
            if (m[X]) s.select(X);
            if (m[X]) sv.select(X, f[X]);
        }
        joined(s, par, "m", nmax, "");
        joined(sv, par, "m", nmax, "");
        values<T>(sv, "f");
        // again with the same limit
        onsites(ALL) {
            if (m[X]) sv.select(X, g[X]);
        }
        joined(sv, ALL, "m", nmax, "");
        values<T>(sv, "g");
        break;
    case 2: // joined by hand
        s.no_join();
        sv.no_join();
        onsites(par) {
            if (m[X]) s.select(X);
            if (m[X]) sv.select(X, f[X]);
        }
        {
            long want = 0;
            for (long k = 0; k < V; k++)
                if (in(hv_coord(k, L), par) && lattice->is_on_mynode(hv_coord(k, L)) && marked("m", k)) want++;
            hs_check((long)s.size() == want && (long)sv.size() == want, "number of sites selected on the process");
            for (size_t i = 0; i < sv.size(); i++) {
                CoordinateVector c = sv.coordinates(i);
                hs_check(lattice->is_on_mynode(c) && marked("m", hv_sid(c, L)) && in(c, par), "site selected on the process");
                T v = sv.value(i);
                hv_same(v, hv_val<T>("f", hv_sid(c, L)), "value on the process");
            }
        }
        s.join();
        sv.join();
        joined(s, par, "m", V, "");
        joined(sv, par, "m", V, "");
        values<T>(sv, "f");
        s.join();
        sv.join();
        joined(s, par, "m", V, "");
        break;
    case 3: // select the same site twice: the last value counts
        onsites(par) {
            if (m[X]) {
                sv.select(X, f[X]);
                sv.select(X, g[X]);
                s.select(X);
                s.select(X);
            }
        }
        joined(s, par, "m", V, "");
        joined(sv, par, "m", V, "");
        values<T>(sv, "g");
        break;
    case 4: // unconditional, and nothing at all
        onsites(par) { sv.select(X, f[X]); }
        {
            long want = 0;
            for (long k = 0; k < V; k++) want += in(hv_coord(k, L), par);
            if (hila::myrank() == 0) hs_check((long)sv.size() == want, "unconditional selection");
        }
        values<T>(sv, "f");
        onsites(par) {
            if (m[X] < 0) sv.select(X, f[X]);
        }
        hs_check(sv.size() == 0, "nothing selected");
        break;
    }
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    NSYM = hs_parami("nsym", 5);
    if (hs_parami("type", 0) == 0) run<double>();
    else if (hs_parami("type", 0) == 1) run<int>();
    else run<Vector<2, Complex<double>>>();
    hs_reach("end");
}
