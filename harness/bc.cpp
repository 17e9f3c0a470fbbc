// Boundary conditions: with an antiperiodic boundary in a set of directions, f[X + d] across that boundary is minus the
// value on the other side; everything else is periodic.  Conditions may change between reads and differ between fields.
#include "hv.h"
template <typename T> void look(const Field<T> &f, const char *n, unsigned mask, Parity par, const char *what) {
    CoordinateVector L = lattice.size();
    for (int d = 0; d < 2 * NDIM; d++) {
        Direction dir = (Direction)d;
        Field<T> g;
        g = 0;
        g[par] = f[X + dir];
        for (unsigned i = 0; i < hv_sites(); i++) {
            CoordinateVector c = lattice->coordinates(i);
            if (par != ALL && c.parity() != par) continue;
            CoordinateVector s = c + hv_step(dir);
            bool wrap = false;
            for (int k = 0; k < NDIM; k++) wrap = wrap || ((s[k] < 0 || s[k] >= L[k]) && (mask >> k & 1));
            T x = hv_at<T>(n, s);
            if (wrap) x = -x;
            T y = g.get_value_at(i);
            hv_eq(y, x, what);
        }
    }
}
template <typename T> void setbc(Field<T> &f, unsigned mask) {
    for (int k = 0; k < NDIM; k++) f.set_boundary_condition((Direction)k, mask >> k & 1 ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
}
template <typename T> void run(const char *what) {
    unsigned m1 = (unsigned)hs_choose("mask", 0, 0, (1 << NDIM) - 1), m2 = (m1 + 1) % (1 << NDIM);
    Field<T> f, h;
    setbc(f, m1);
    hv_fill(f, "f");
    look(f, "f", m1, ALL, what);
    for (int k = 0; k < NDIM; k++) hs_check((f.get_boundary_condition((Direction)k) == hila::bc::ANTIPERIODIC) == (m1 >> k & 1), "get_boundary_condition");
    // another field with its own condition, read by parity
    hv_fill(h, "h");
    setbc(h, m2);
    look(h, "h", m2, EVEN, what);
    look(h, "h", m2, ODD, what);
    // changing the condition after reading
    setbc(f, m2);
    look(f, "f", m2, EVEN, what);
    setbc(f, m1);
    look(f, "f", m1, ALL, what);
    // copying it; the condition survives an assignment to the field
    h.copy_boundary_condition(f);
    look(h, "h", m1, ALL, what);
    h[ALL] = f[X];
    look(h, "f", m1, ALL, what);
}
extern "C" void hs_main() {
    hv_init(hv_size());
    switch (hs_parami("type", 0)) {
    case 0: run<double>("f[X+d] double"); break;
    case 1: run<Vector<2, float>>("f[X+d] Vector"); break;
    case 2: run<Complex<double>>("f[X+d] Complex"); break;
    case 3: run<int>("f[X+d] int"); break;
#ifdef AVX
    case 4: run<Vector<3, long>>("f[X+d] not vectorizable"); break;
#else
    case 4: run<short>("f[X+d] short"); break;
#endif
    }
    hs_reach("end");
}
