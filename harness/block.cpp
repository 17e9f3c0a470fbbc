// Blocked lattices: values move between fine and coarse lattice by coordinate.
#include "hv.h"
#include "gaugefield.h"
static CoordinateVector L;
template <typename T> static T at(const char *n, const CoordinateVector &c) { return hv_val<T>(n, hv_sid(c, L)); }
static CoordinateVector times(const CoordinateVector &a, const CoordinateVector &b) {
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) c[d] = a[d] * b[d];
    return c;
}
static bool ones(const CoordinateVector &a) {
    bool r = true;
    for (int d = 0; d < NDIM; d++) r = r && a[d] == 1;
    return r;
}
static CoordinateVector choose(const char *n, const CoordinateVector &S) {
    CoordinateVector F;
    int maxf = (int)hs_parami("fmax", 4);
    for (int d = 0; d < NDIM; d++) {
        F[d] = hs_choose(n, d, 1, maxf);
        if (S[d] % F[d]) F[d] = 1;
    }
    return F;
}
// the coarse field has the values n at the coordinates c*F, everywhere and at the neighbours
template <typename T> static void coarse_is(Field<T> &b, const char *n, const CoordinateVector &F, const char *msg) {
    CoordinateVector S = lattice.size();
    for (unsigned i = 0; i < hv_sites(); i++) hv_is(b, i, at<T>(n, times(lattice->coordinates(i), F)), msg);
    Field<T> g;
    for (int d = 0; d < NDIRS; d++) {
        Direction dir = (Direction)d;
        g[ALL] = b[X + dir];
        for (unsigned i = 0; i < hv_sites(); i++)
            hv_is(g, i, at<T>(n, times(hv_wrap(lattice->coordinates(i) + hv_step(dir), S), F)), "neighbour on the coarse lattice");
    }
}
template <typename T> static void fine_is(Field<T> &f, const char *n, const char *m, const CoordinateVector &F, const char *msg) {
    Field<T> g;
    for (int k = -1; k < (int)NDIRS; k++) {
        if (k >= 0) {
            Direction dir = (Direction)k;
            g[ALL] = f[X + dir];
        }
        for (unsigned i = 0; i < hv_sites(); i++) {
            CoordinateVector c = lattice->coordinates(i);
            if (k >= 0) c = hv_wrap(c + hv_step((Direction)k), L);
            bool on = true;
            for (int d = 0; d < NDIM; d++) on = on && c[d] % F[d] == 0;
            hv_is(k < 0 ? f : g, i, at<T>(on ? m : n, c), msg);
        }
    }
}
template <typename T> static void run() {
    Field<T> f, h;
    hv_fill(f, "f");
    hv_fill(h, "h");
    fine_is(h, "h", "h", L, "before");
    CoordinateVector F = choose("F", L);
    hs_check(lattice.can_block(F), "can_block");
    Lattice base = lattice;
    lattice.block(F);
    for (int d = 0; d < NDIM; d++) hs_check(lattice.size(d) == L[d] / F[d], "size of the blocked lattice");
    {
        Field<T> b;
        b.block_from(f);
        coarse_is(b, "f", F, "blocked value");
        long n = 0;
        onsites(ALL) n += 1;
        hs_check(n == (long)lattice.volume(), "sites of the blocked lattice");
        // other values back to the fine lattice
        for (unsigned i = 0; i < hv_sites(); i++) b.set_value_at(at<T>("g", times(lattice->coordinates(i), F)), i);
        b.mark_changed(ALL);
        b.unblock_to(h);
        b.unblock_to(f);
    }
    if (hs_parami("two", 0)) {
        // a second level
        Field<T> b;
        b.block_from(f);
        CoordinateVector G = choose("G", lattice.size());
        lattice.block(G);
        Field<T> bb;
        bb.block_from(b);
        coarse_is(bb, "g", times(F, G), "value blocked twice");
        b.block_to_current_lattice();
        coarse_is(b, "g", times(F, G), "field moved to the coarse lattice");
        lattice.switch_to_base();
        // the same size in one step from the base lattice
        lattice.block(times(F, G));
        Field<T> c;
        c.block_from(f);
        coarse_is(c, "g", times(F, G), "blocked in one step after two steps");
        if (!ones(times(F, G))) lattice.unblock();
        for (int d = 0; d < NDIM; d++) hs_check(lattice.size(d) == L[d], "unblock leads back to the lattice that was blocked");
    } else if (!ones(F))
        lattice.unblock();
    lattice.switch_to_base();
    for (int d = 0; d < NDIM; d++) hs_check(lattice.size(d) == L[d], "back on the base lattice");
    fine_is(h, "h", "g", F, "fine field after unblocking");
}
// long links: the product of the two links
static void gauge() {
    using T = Matrix<2, 2, double>;
    GaugeField<T> U;
    static const char *nm[] = {"u0", "u1", "u2", "u3"};
    for (int d = 0; d < NDIM; d++) hv_fill(U[(Direction)d], nm[d]);
    CoordinateVector F = choose("F", L);
    lattice.block(F);
    GaugeField<T> B;
    B.block_gauge(U);
    U.block_gauge_to_current_lattice();
    for (int d = 0; d < NDIM; d++) {
        for (unsigned i = 0; i < hv_sites(); i++) {
            CoordinateVector c = times(lattice->coordinates(i), F);
            T w = at<T>(nm[d], c);
            if (F[d] == 2) {
                T v = at<T>(nm[d], hv_wrap(c + hv_step((Direction)d), L)), p;
                for (int a = 0; a < 2; a++)
                    for (int b = 0; b < 2; b++) p.e(a, b) = w.e(a, 0) * v.e(0, b) + w.e(a, 1) * v.e(1, b);
                w = p;
            }
            hv_eq(B[(Direction)d].get_value_at(i), w, "blocked link");
            hv_eq(U[(Direction)d].get_value_at(i), w, "link moved to the blocked lattice");
        }
    }
    lattice.switch_to_base();
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    switch (hs_parami("type", 0)) {
    case 0: run<double>(); break;
    case 1: run<int>(); break;
    case 2: run<Vector<2, Complex<float>>>(); break;
    default: gauge();
    }
    hs_reach("end");
}
