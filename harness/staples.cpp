// Staple sums, plaquette sums and Polyakov loops of arbitrary complex matrices, against their definitions by coordinates.
#include "hv.h"
#include "gauge/staples.h"
#include "gauge/wilson_plaquette_action.h"
#include "gauge/polyakov.h"
static CoordinateVector L;
static long V, only;
typedef SU<N_, double> G;
typedef Complex<double> C;
static C ent(long s, int d, int i, int j) {
    long k = ((s * NDIM + d) * N_ + i) * N_ + j;
    if (only && s % only) return C((double)((k * 7 + 3) % 11) - 5, (double)((k * 5 + 1) % 13) - 6);
    return C(hs_f64("re", k, -10, 10), hs_f64("im", k, -10, 10));
}
struct M { C e[N_][N_]; };
static M lk(const CoordinateVector &c, int d) {
    M m;
    long s = hv_sid(hv_wrap(c, L), L);
    for (int i = 0; i < N_; i++) for (int j = 0; j < N_; j++) m.e[i][j] = ent(s, d, i, j);
    return m;
}
static M mul(const M &a, const M &b) {
    M m;
    for (int i = 0; i < N_; i++)
        for (int j = 0; j < N_; j++) {
            double re = 0, im = 0;
            for (int k = 0; k < N_; k++) { re += a.e[i][k].re * b.e[k][j].re - a.e[i][k].im * b.e[k][j].im; im += a.e[i][k].re * b.e[k][j].im + a.e[i][k].im * b.e[k][j].re; }
            m.e[i][j] = C(re, im);
        }
    return m;
}
static M dag(const M &a) {
    M m;
    for (int i = 0; i < N_; i++) for (int j = 0; j < N_; j++) m.e[i][j] = C(a.e[j][i].re, -a.e[j][i].im);
    return m;
}
static M plus(const M &a, const M &b, double w) {
    M m;
    for (int i = 0; i < N_; i++) for (int j = 0; j < N_; j++) m.e[i][j] = C(a.e[i][j].re + w * b.e[i][j].re, a.e[i][j].im + w * b.e[i][j].im);
    return m;
}
static M zero() {
    M m;
    for (int i = 0; i < N_; i++) for (int j = 0; j < N_; j++) m.e[i][j] = C(0, 0);
    return m;
}
static double weight(const CoordinateVector &c, int a, int b) { // of the plaquette at c in the plane a, b
    long k = (hv_sid(hv_wrap(c, L), L) * NDIM + (a < b ? a : b)) * NDIM + (a < b ? b : a);
    return (double)((k * 13 + 2) % 9) / 4 - 1;
}
static M naive(const CoordinateVector &x, int d1, bool w) {
    M s = zero();
    for (int d2 = 0; d2 < NDIM; d2++)
        if (d2 != d1) {
            CoordinateVector e1 = hv_step((Direction)d1), e2 = hv_step((Direction)d2);
            s = plus(s, mul(mul(lk(x, d2), lk(x + e2, d1)), dag(lk(x + e1, d2))), w ? weight(x, d1, d2) : 1);
            s = plus(s, mul(mul(dag(lk(x - e2, d2)), lk(x - e2, d1)), lk(x - e2 + e1, d2)), w ? weight(x - e2, d1, d2) : 1);
        }
    return s;
}
static void is(const G &g, const M &m, const char *what) {
    for (int i = 0; i < N_; i++) for (int j = 0; j < N_; j++) { hs_eq_f64(g.e(i, j).re, m.e[i][j].re, what); hs_eq_f64(g.e(i, j).im, m.e[i][j].im, what); }
}
static void links(GaugeField<G> &U) {
    foralldir(d) {
        U[d][ALL] = 0;
        for (unsigned i = 0; i < hv_sites(); i++) {
            G m;
            for (int p = 0; p < N_; p++) for (int q = 0; q < N_; q++) m.e(p, q) = ent(hv_sid(lattice->coordinates(i), L), (int)d, p, q);
            U[d].set_value_at(m, i);
        }
    }
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    only = hs_parami("only", 0);
    GaugeField<G> U;
    links(U);
    int what = hs_parami("what", 0);
    if (what == 0) {
        int pp = (int)hs_choose("par", 0, 0, 2), d1 = (int)hs_choose("dir", 0, 0, NDIM - 1), kind = (int)hs_choose("kind", 0, 0, pp == 0 ? 2 : 1);
        Parity par = pp == 0 ? ALL : pp == 1 ? EVEN : ODD;
        for (int d = 0; d < NDIM; d++) if (L[d] % 2 && pp) return;
        Field<G> S;
        S[ALL] = 0;
        if (kind == 0) staplesum(U, S, (Direction)d1, par);
        else if (kind == 2) rstaplesum(U, S, (Direction)d1);
        else {
            plaqw_t<double> w;
            for (int a = 0; a < NDIM; a++)
                for (int b = 0; b < NDIM; b++)
                    if (a != b) {
                        w[a][b][ALL] = 0;
                        for (unsigned i = 0; i < hv_sites(); i++) w[a][b].set_value_at(weight(lattice->coordinates(i), a, b), i);
                    }
            staplesum(U, S, (Direction)d1, w, par);
        }
        for (unsigned i = 0; i < hv_sites(); i++) {
            CoordinateVector c = lattice->coordinates(i);
            if (!(par == ALL || c.parity() == par)) is(S.get_value_at(i), zero(), "staple sum at the other parity");
            else {
                M m = naive(c, d1, kind == 1);
                is(S.get_value_at(i), kind == 2 ? dag(m) : m, kind == 0 ? "staple sum" : kind == 1 ? "weighted staple sum" : "reversed staple sum");
            }
        }
    } else if (what == 1) { // plaquettes
        double want = 0;
        for (long s = 0; s < V; s++)
            for (int a = 0; a < NDIM; a++)
                for (int b = 0; b < a; b++) {
                    CoordinateVector x = hv_coord(s, L);
                    M p = mul(mul(lk(x, a), lk(x + hv_step((Direction)a), b)), dag(mul(lk(x, b), lk(x + hv_step((Direction)b), a))));
                    double t = 0;
                    for (int i = 0; i < N_; i++) t += p.e[i][i].re;
                    want += 1 - t / N_;
                }
        double p = U.measure_plaq(), q = measure_s_wplaq(U);
        if (hila::myrank() == 0) {
            hs_eq_f64(p, want, "GaugeField::measure_plaq");
            hs_eq_f64(q, want, "measure_s_wplaq");
        }
    } else { // Polyakov loops
        int d = (int)hs_choose("dir", 0, 0, NDIM - 1);
        double re = 0, im = 0;
        for (long s = 0; s < V; s++) {
            CoordinateVector x = hv_coord(s, L);
            if (x[d]) continue;
            M p = lk(x, d);
            for (int k = 1; k < L[d]; k++) { x[d] = k; p = mul(p, lk(x, d)); }
            for (int i = 0; i < N_; i++) { re += p.e[i][i].re; im += p.e[i][i].im; }
        }
        Complex<double> z = d == NDIM - 1 ? measure_polyakov(U) : measure_polyakov(U, (Direction)d);
        hs_eq_f64(z.re * (double)(V / L[d]), re, "Polyakov loop");
        hs_eq_f64(z.im * (double)(V / L[d]), im, "Polyakov loop");
    }
    hs_reach("end");
}
