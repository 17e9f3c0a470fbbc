// No stale data: after any history of writes and reads of a field, a site loop sees at X, X+d and X+vector the values the
// history has put there.  The harness keeps its own copy of the whole lattice.
#include "hv.h"
static CoordinateVector L;
static long V;
typedef std::vector<double> Shadow;
static Shadow sf, sh;
static double at(const Shadow &s, const CoordinateVector &c) { return s[hv_sid(hv_wrap(c, L), L)]; }
static bool in(const CoordinateVector &c, Parity p) { return p == ALL || c.parity() == p; }
static void cmp(const Field<double> &g, const Shadow &s, const CoordinateVector &off, Parity p, const char *what) {
    for (unsigned i = 0; i < hv_sites(); i++) {
        CoordinateVector c = lattice->coordinates(i);
        if (in(c, p)) hs_same_f64(g.get_value_at(i), at(s, c + off), what);
    }
}
static void read_nb(const Field<double> &f, Direction d, Parity p, const char *what) {
    Field<double> g;
    g[ALL] = 0;
    g[p] = f[X + d];
    cmp(g, sf, hv_step(d), p, what);
}
static void read_off(const Field<double> &f, const CoordinateVector &v, Parity p, const char *what) {
    Field<double> g;
    g[ALL] = 0;
    g[p] = f[X + v];
    cmp(g, sf, v, p, what);
}
template <typename F> static void upd(Parity p, F fn) {
    Shadow n = sf;
    for (long s = 0; s < V; s++) {
        CoordinateVector c = hv_coord(s, L);
        if (in(c, p)) n[s] = fn(s, c);
    }
    sf = n;
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    Field<double> f, h;
    hv_fill(f, "f");
    hv_fill(h, "h");
    for (long s = 0; s < V; s++) { sf.push_back(hs_f64("f", s, -10, 10)); sh.push_back(hs_f64("h", s, -10, 10)); }
    int n = hs_parami("depth", 3), nop = 26;
    int dd = hs_parami("dir", -1);
    Direction d = (Direction)(dd < 0 ? hs_choose("dir", 0, 0, 2 * NDIM - 1) : dd);
    CoordinateVector dv = hv_step(d), dg = hv_step(d), far = hv_step(d) + hv_step(d);
    dg[((int)d + 1) % NDIM] += (int)d < NDIM ? 1 : -1;
    CoordinateVector e0 = hv_wrap(dv, L), e1 = hv_coord(V - 1, L);
    for (int k = 0; k < n; k++) {
        int op = (int)hs_choose("op", k, 0, nop - 1);
        double c = hs_f64("c", k, -10, 10);
        switch (op) {
        case 0: f[ALL] = h[X]; sf = sh; break;
        case 1: f[EVEN] = h[X]; upd(EVEN, [&](long s, CoordinateVector) { return sh[s]; }); break;
        case 2: f[ODD] = h[X]; upd(ODD, [&](long s, CoordinateVector) { return sh[s]; }); break;
        case 3: read_nb(f, d, ALL, "read ALL"); break;
        case 4: read_nb(f, d, EVEN, "read EVEN"); break;
        case 5: read_nb(f, d, ODD, "read ODD"); break;
        case 6: f.start_gather(d, ALL); break;
        case 7: f.start_gather(d, EVEN); break;
        case 8: f.start_gather(d, ODD); break;
        case 9: f.set_element(e0, c); sf[hv_sid(e0, L)] = c; break;
        case 10: f.set_element(e1, c); sf[hv_sid(e1, L)] = c; break;
        case 11: { std::vector<double> v = {c, -c}; std::vector<CoordinateVector> cl = {e0, e1}; f.set_elements(v, cl); sf[hv_sid(e0, L)] = c; sf[hv_sid(e1, L)] = -c; break; }
        case 12: read_off(f, dg, ALL, "read diagonal"); break;
        case 13: read_off(f, dg, EVEN, "read diagonal EVEN"); break;
        case 14: read_off(f, far, ODD, "read two steps ODD"); break;
        case 15: f = h; sf = sh; break;
        case 16: { Field<double> t; t[ALL] = h[X]; t.gather(d, ALL); f = std::move(t); sf = sh; break; }
        case 17: std::swap(f, h); std::swap(sf, sh); break;
        case 18: if (L[abs(d)] % 2) break; f[EVEN] = f[X + d]; { Shadow o = sf; upd(EVEN, [&](long, CoordinateVector x) { return at(o, x + dv); }); } break;
        case 19: f.clear(); f[ALL] = h[X]; sf = sh; break;
        case 20: h[ALL] = f[X]; sh = sf; break;
        case 21: { Field<double> t(f); t.gather(d, ALL); t[EVEN] = h[X]; f[ALL] = t[X]; upd(EVEN, [&](long s, CoordinateVector) { return sh[s]; }); break; }
        case 22: { std::vector<double> b; h.copy_local_data(b); f.set_local_data(b); sf = sh; break; }
        case 23: f.gather(d, EVEN); f.start_gather(d, ALL); break;
        case 24: f.start_gather(d, ALL); onsites(ODD) { f[X] = h[X + d]; } upd(ODD, [&](long, CoordinateVector x) { return at(sh, x + dv); }); break;
        case 25: { Field<double> t; t = f.shift(dv); f = t; Shadow o = sf; upd(ALL, [&](long, CoordinateVector x) { return at(o, x + dv); }); break; }
        }
    }
    cmp(f, sf, hv_step(d) - hv_step(d), ALL, "field");
    read_nb(f, d, ODD, "final read ODD");
    read_nb(f, d, ALL, "final read ALL");
    read_nb(f, -d, ALL, "final read opposite direction");
    read_off(f, dg, ALL, "final read diagonal");
    std::swap(sf, sh);
    read_nb(h, d, ALL, "final read of the other field");
    hs_reach("end");
}
