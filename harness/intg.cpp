// Molecular dynamics integrators (hmc/integrator.h) with arbitrary nonlinear forces: integrating, flipping the momenta and
// integrating back restores the state, for every step length and number of steps and every hierarchy of levels.
#include "hv.h"
#include "hmc/integrator.h"
#include <cmath>
static double x[2], p[2], bx[2], bp[2];
static int calls[3];
struct Drift : integrator_base { // updates the fields with the momenta
    double action() override { return (p[0] * p[0] + p[1] * p[1]) / 2; }
    void step(double eps) override {
        calls[0]++;
        x[0] += eps * p[0];
        x[1] += eps * p[1];
    }
    void backup_fields() override { for (int i = 0; i < 2; i++) { bx[i] = x[i]; bp[i] = p[i]; } }
    void restore_backup() override { for (int i = 0; i < 2; i++) { x[i] = bx[i]; p[i] = bp[i]; } }
};
struct A1 : action_base { // force: any functions of the fields
    double action() override { return 3 * x[0]; }
    void force_step(double eps) override {
        calls[1]++;
        p[0] -= eps * std::exp(x[0] + 2 * x[1]);
        p[1] -= eps * std::exp(x[1] - x[0]);
    }
};
struct A2 : action_base {
    double action() override { return 5 * x[1]; }
    void force_step(double eps) override {
        calls[2]++;
        p[1] -= eps * std::log(x[1]);
        p[0] -= eps * std::exp(3 * x[0]);
    }
};
static double x0(int i) { return hs_f64("x", i, 1, 10); }
static double p0(int i) { return hs_f64("p", i, -10, 10); }
static void restored(const char *w) {
    for (int i = 0; i < 2; i++) { hs_eq_f64(x[i], x0(i), w); hs_eq_f64(p[i], p0(i), w); }
}
static void flip() { p[0] = -p[0]; p[1] = -p[1]; }
// the levels of the hierarchy
static integrator_base *make(int kind, action_base &a, integrator_base &low, int n) {
    if (kind == 0) return n == 1 ? new leapfrog_integrator(a, low) : new leapfrog_integrator(a, low, n);
    return n == 1 ? new O2_integrator(a, low) : new O2_integrator(a, low, n);
}
extern "C" void hs_main() {
    for (int i = 0; i < 2; i++) { x[i] = x0(i); p[i] = p0(i); }
    double eps = hs_f64("eps", 0, 0, 1);
    static Drift d;
    static A1 a1;
    static A2 a2;
    action_sum both(a1, a2), plus = a1 + a2, copy(plus);
    int steps = hs_parami("steps", 1), what = (int)hs_choose("what", 0, 0, 3);
    int k1 = (int)hs_choose("kind", 0, 0, 1), k2 = (int)hs_choose("kind", 1, 0, 1), n1 = (int)hs_choose("n", 0, 1, hs_parami("nmax", 2)), n2 = (int)hs_choose("n", 1, 1, hs_parami("nmax", 2));
    if (what == 0) { // sums of actions
        int c = (int)hs_choose("sum", 0, 0, 2);
        action_base &s = c == 0 ? (action_base &)both : c == 1 ? (action_base &)plus : copy;
        hs_eq_f64(s.action(), 3 * x[0] + 5 * x[1], "action of a sum");
        double e1 = std::exp(x[0] + 2 * x[1]), e2 = std::exp(x[1] - x[0]), e3 = std::exp(3 * x[0]), l = std::log(x[1]);
        s.force_step(eps);
        hs_eq_f64(p[0], p0(0) - eps * e1 - eps * e3, "force of a sum");
        hs_eq_f64(p[1], p0(1) - eps * e2 - eps * l, "force of a sum");
        hs_check(calls[1] == 1 && calls[2] == 1, "each term of the sum acts once");
        integrator_base *t = make(k1, s, d, n1);
        hs_eq_f64(t->action(), 3 * x[0] + 5 * x[1] + (p[0] * p[0] + p[1] * p[1]) / 2, "action of a level");
    } else {
        // 1: one level; 2: two levels; 3: a sum on one level
        integrator_base *t = what == 3 ? make(k1, plus, d, n1) : make(k1, a1, d, n1);
        if (what == 2) t = make(k2, a2, *t, n2);
        t->backup_fields();
        for (int i = 0; i < steps; i++) t->step(eps);
        flip();
        for (int i = 0; i < steps; i++) t->step(eps);
        flip();
        restored("integrating there and back");
        hs_check(calls[0] > 0 && calls[1] > 0 && (what == 1 || calls[2] > 0), "every level took part");
        // the fields move by eps times the momenta in all: no force
        t->restore_backup();
        restored("backup");
    }
    hs_reach("end");
}
