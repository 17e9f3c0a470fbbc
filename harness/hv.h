// Helpers shared by the harnesses.
#ifndef HV_H_
#define HV_H_
#include "hila.h"
#include "hs.h"
inline void hv_init(const CoordinateVector &L) {
    static int argc = 1;
    static char prog[] = "prog";
    static char *argv_[] = {prog, nullptr};
    char **argv = argv_;
    hila::initialize(argc, argv);
    // sizes that cannot be divided among the processes are refused
    bool may = hs_nranks() > 1;
#ifdef AVX
    may = true;
#endif
    for (int d = 0; d < NDIM; d++) if (L[d] < 2) may = true;
    hs_allow_finish(may);
    lattice.setup(L);
    hs_allow_finish(0);
}
// lattice size: every combination of the sizes lmin..lmax (parameters), or fixed L0, L1, ..
inline CoordinateVector hv_size() {
    CoordinateVector L;
    static const char *nm[] = {"L0", "L1", "L2", "L3"};
    for (int d = 0; d < NDIM; d++) {
        long v = hs_parami(nm[d], 0);
        L[d] = v ? v : hs_choose("L", d, hs_parami("lmin", 2), hs_parami("lmax", 4));
    }
    return L;
}
inline long hv_sid(const CoordinateVector &c, const CoordinateVector &L) {
    long s = 0;
    for (int d = NDIM - 1; d >= 0; d--) s = s * L[d] + c[d];
    return s;
}
inline CoordinateVector hv_coord(long s, const CoordinateVector &L) {
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) { c[d] = s % L[d]; s /= L[d]; }
    return c;
}
inline CoordinateVector hv_wrap(CoordinateVector c, const CoordinateVector &L) {
    for (int d = 0; d < NDIM; d++) { c[d] %= L[d]; if (c[d] < 0) c[d] += L[d]; }
    return c;
}
inline long hv_volume(const CoordinateVector &L) {
    long v = 1;
    for (int d = 0; d < NDIM; d++) v *= L[d];
    return v;
}
inline bool hv_even(const CoordinateVector &c) {
    long s = 0;
    for (int d = 0; d < NDIM; d++) s += c[d];
    return s % 2 == 0;
}
// a site value of each type: component k of the value at site s of the field named n
inline void hv_put(double &x, const char *n, long k) { x = hs_f64(n, k, -10, 10); }
inline void hv_put(float &x, const char *n, long k) { x = hs_f32(n, k, -10, 10); }
inline void hv_put(int &x, const char *n, long k) { x = (int)hs_int(n, k, -100, 100); }
inline void hv_put(short &x, const char *n, long k) { x = (short)hs_int(n, k, -100, 100); }
inline void hv_put(char &x, const char *n, long k) { x = (char)hs_int(n, k, -100, 100); }
inline void hv_put(unsigned &x, const char *n, long k) { x = (unsigned)hs_int(n, k, 0, 100); }
inline void hv_put(long &x, const char *n, long k) { x = hs_int(n, k, -100, 100); }
inline void hv_put(unsigned long &x, const char *n, long k) { x = (unsigned long)hs_int(n, k, 0, 100); }
template <typename T> inline void hv_put(Complex<T> &x, const char *n, long k) { hv_put(x.re, n, 2 * k); hv_put(x.im, n, 2 * k + 1); }
template <int n, int m, typename T, typename M> inline void hv_put(Matrix_t<n, m, T, M> &x, const char *nm, long k) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) hv_put(x.e(i, j), nm, k * n * m + i * m + j);
}
template <typename T> inline T hv_val(const char *n, long s) {
    T x;
    hv_put(x, n, s);
    return x;
}
inline void hv_same(double a, double b, const char *w) { hs_same_f64(a, b, w); }
inline void hv_same(float a, float b, const char *w) { hs_same_f64(a, b, w); }
inline void hv_same(int a, int b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_same(short a, short b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_same(char a, char b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_same(unsigned a, unsigned b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_same(long a, long b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_same(unsigned long a, unsigned long b, const char *w) { hs_eq_i64((long)a, (long)b, w); }
template <typename T> inline void hv_same(const Complex<T> &a, const Complex<T> &b, const char *w) { hv_same(a.re, b.re, w); hv_same(a.im, b.im, w); }
template <int n, int m, typename T, typename M> inline void hv_same(const Matrix_t<n, m, T, M> &a, const Matrix_t<n, m, T, M> &b, const char *w) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) hv_same(a.e(i, j), b.e(i, j), w);
}
inline void hv_eq(double a, double b, const char *w) { hs_eq_f64(a, b, w); }
inline void hv_eq(float a, float b, const char *w) { hs_eq_f32(a, b, w); }
inline void hv_eq(int a, int b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_eq(short a, short b, const char *w) { hs_eq_i64(a, b, w); }
inline void hv_eq(long a, long b, const char *w) { hs_eq_i64(a, b, w); }
template <typename T> inline void hv_eq(const Complex<T> &a, const Complex<T> &b, const char *w) { hv_eq(a.re, b.re, w); hv_eq(a.im, b.im, w); }
template <int n, int m, typename T, typename M> inline void hv_eq(const Matrix_t<n, m, T, M> &a, const Matrix_t<n, m, T, M> &b, const char *w) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) hv_eq(a.e(i, j), b.e(i, j), w);
}
template <typename T> inline T hv_at(const char *n, const CoordinateVector &c) {
    CoordinateVector L = lattice.size();
    return hv_val<T>(n, hv_sid(hv_wrap(c, L), L));
}
inline unsigned hv_sites() { return lattice->mynode.volume; }
// fill a field with symbolic site values; the field is marked changed
template <typename T> inline void hv_fill(Field<T> &f, const char *n) {
    if (!f.is_allocated()) f.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) f.set_value_at(hv_at<T>(n, lattice->coordinates(i)), i);
    f.mark_changed(ALL);
}
template <typename T> inline void hv_is(const Field<T> &f, unsigned i, const T &x, const char *w) {
    T y = f.get_value_at(i);
    hv_same(y, x, w);
}
inline CoordinateVector hv_step(Direction d) {
    CoordinateVector s;
    for (int k = 0; k < NDIM; k++) s[k] = 0;
    if ((int)d < NDIM) s[(int)d] = 1;
    else s[2 * NDIM - 1 - (int)d] = -1;
    return s;
}
#endif
