// Gauge actions and forces.  The force at a link is the derivative of the action along every algebra direction: the link is
// exp(2 theta lambda) V with a symbolic angle theta, and the derivative is taken of the very expression the action computes.
// Links are SU(2) matrices with three symbolic Euler angles (or arbitrary complex matrices, ANY) and, further away, elements of
// a finite subgroup of SU(2) that are exact in floating point.
#include "hv.h"
#include "gauge/wilson_plaquette_action.h"
#include "gauge/improved_action.h"
#include "gauge/bulk_prevention_action.h"
#include "gauge/clover_action.h"
#include <cmath>
typedef SU<2, double> G;
static CoordinateVector L;
static long V;
static int act, nsym;
static long site;   // the link that is moved
static int dir, gen;
static double theta;
static G quat(double a, double b, double c, double d) {
    G m;
    m.e(0, 0) = Complex<double>(a, d);
    m.e(0, 1) = Complex<double>(c, b);
    m.e(1, 0) = Complex<double>(-c, b);
    m.e(1, 1) = Complex<double>(a, -d);
    return m;
}
static G fixedlink(long k) { // the 24 units of the Hurwitz quaternions
    k = (k * 11 + 5 + k / 7) % 24;
    if (k < 16) return quat(k & 1 ? 0.5 : -0.5, k & 2 ? 0.5 : -0.5, k & 4 ? 0.5 : -0.5, k & 8 ? 0.5 : -0.5);
    k -= 16;
    double s = k & 1 ? 1 : -1;
    int w = (int)(k / 2);
    return quat(w == 0 ? s : 0, w == 1 ? s : 0, w == 2 ? s : 0, w == 3 ? s : 0);
}
static G euler(long k) { // every SU(2) matrix
    double a = hs_f64("alpha", k, -4, 4), b = hs_f64("beta", k, -4, 4), c = hs_f64("gamma", k, -4, 4);
    return quat(std::cos(a) * std::cos(b), std::sin(a) * std::cos(b), std::cos(c) * std::sin(b), std::sin(c) * std::sin(b));
}
static G rotation(double t) { // exp(2 t lambda)
    return gen == 0 ? quat(std::cos(t), 0, 0, std::sin(t)) : gen == 1 ? quat(std::cos(t), 0, std::sin(t), 0) : quat(std::cos(t), std::sin(t), 0, 0);
}
// distance of a link from the moved one decides whether it is symbolic: 0 the link itself, 1.. those of one plaquette
static bool symbolic(long s, int d) {
    if (nsym <= 0) return false;
    CoordinateVector x = hv_coord(site, L), y = hv_coord(s, L);
    int e = (dir + 1) % NDIM;
    int n = 0;
    if (s == site && d == dir) n = 1;
    else if (y == hv_wrap(x + hv_step((Direction)dir), L) && d == e) n = 2;
    else if (y == hv_wrap(x - hv_step((Direction)e), L) && d == dir) n = 3;
    else if (y == x && d == e) n = 4;
    return n && n <= nsym;
}
static G link(long s, int d, double t) {
    long k = s * NDIM + d;
    G m;
    if (hs_parami("any", 0)) {
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { m.e(i, j).re = hs_f64("re", k * 4 + i * 2 + j, -10, 10); m.e(i, j).im = hs_f64("im", k * 4 + i * 2 + j, -10, 10); }
    } else m = symbolic(s, d) ? euler(k) : fixedlink(k);
    if (s == site && d == dir) m = rotation(t) * m;
    return m;
}
static void setlinks(GaugeField<G> &U, double t) {
    foralldir(d) {
        U[d][ALL] = 0;
        for (unsigned i = 0; i < hv_sites(); i++) U[d].set_value_at(link(hv_sid(lattice->coordinates(i), L), (int)d, t), i);
    }
}
static double c11() { return 1.5; }
static double c12() { return -0.25; }
static std::vector<Direction> path() {
    Direction a = e_x, b = e_y, c = Direction(NDIM - 1);
    switch (hs_parami("path", 0)) {
    case 0: return {a, b, -a, -b};
    case 1: return {b, b, -a, -b, -b, a};
    case 2: return std::vector<Direction>(lattice.size(0), a);      // once around the lattice
    case 3: return {a, b, -b, b, -a, -b};                            // with a step back
    case 4: return {-a, c, a, b, -c, -b};
    }
    return {a, b, -a, -b, -a, b, a, -b};                             // figure of eight
}
static double wloops(GaugeField<G> &U) {
    Field<G> R;
    get_wilson_line(U, path(), R);
    double s = 0;
    onsites(ALL) s += 1.0 - real(trace(R[X])) / 2;
    return s;
}
static double action(GaugeField<G> &U) {
    switch (act) {
    case 0: return measure_s_wplaq(U);
    case 1: return measure_s_impr(U, c11(), c12());
    case 2: return measure_s_bp(U);
    case 3: return measure_s_clover(U);
    case 4: return wloops(U);
    }
    return 0;
}
static void force(GaugeField<G> &U, VectorField<Algebra<G>> &K, double eps, bool add) {
    switch (act) {
    case 0: if (add) get_force_wplaq_add(U, K, eps); else get_force_wplaq(U, K, eps); break;
    case 1: if (add) get_force_impr_add(U, K, eps * c11(), eps * c12()); else get_force_impr(U, K, eps * c11(), eps * c12()); break;
    case 2: if (add) get_force_bp_add(U, K, eps); else get_force_bp(U, K, eps); break;
    case 3: if (add) get_force_clover_add(U, K, eps); else get_force_clover(U, K, eps); break;
    case 4: if (add) get_wloop_force_add(U, path(), eps, K); else get_wloop_force(U, path(), eps, K); break;
    }
}
static double sact(double t) {
    GaugeField<G> U;
    setlinks(U, t);
    return action(U);
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    act = hs_parami("act", 0);
    nsym = hs_parami("nsym", 1);
    site = hs_choose("site", 0, 0, V - 1);
    long stride = hs_parami("stride", 1);
    if (site % stride) return;
    dir = (int)hs_choose("dir", 0, 0, NDIM - 1);
    gen = (int)hs_choose("gen", 0, 0, 2);
    theta = hs_f64("theta", 0, -4, 4);
    GaugeField<G> U;
    VectorField<Algebra<G>> K, H;
    setlinks(U, theta);
    double S = action(U), dS = 0;
    CoordinateVector x = hv_coord(site, L);
    hila::broadcast(S);
    if (hs_symbolic()) dS = hs_diff(S, theta);
    else {
        double h = 1e-3;
        dS = (8 * (sact(theta + h) - sact(theta - h)) - (sact(theta + 2 * h) - sact(theta - 2 * h))) / (12 * h);
        hila::broadcast(dS);
    }
    double eps = 0.75;
    bool add = hs_parami("add", 0);
    foralldir(d) { K[d][ALL] = 0; if (add) onsites(ALL) K[d][X].e(0) = 1.25; }
    force(U, K, eps, add);
    Algebra<G> f = K[(Direction)dir].get_element(x);
    double k = f.e(gen) - (add && gen == 0 ? 1.25 : 0);
    hs_eq_f64(k, -2 * eps * dS, "force against the derivative of the action");
    // the links were not changed
    foralldir(d) for (unsigned i = 0; i < hv_sites(); i++) {
        long s = hv_sid(lattice->coordinates(i), L);
        if (s == site && (int)d == dir) {
            G a = U[d].get_value_at(i), b = link(s, (int)d, theta);
            for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) { hs_eq_f64(a.e(p, q).re, b.e(p, q).re, "link changed by the force"); hs_eq_f64(a.e(p, q).im, b.e(p, q).im, "link changed by the force"); }
        }
    }
    hs_reach("end");
}
