// Fourier transforms, reflections, transforms of real fields
#include "hv.h"
extern "C" double hs_cos2pi(int num, int n);
extern "C" double hs_sin2pi(int num, int n);
static CoordinateVector L;
static long V;
// the textbook transform, direction by direction, of the whole lattice
template <typename R> static void dft(Complex<R> *a, int mask, int sign) {
    for (int d = 0; d < NDIM; d++) {
        if (!((mask >> d) & 1)) continue;
        int n = L[d];
        Complex<R> *r = new Complex<R>[V];
        for (long s = 0; s < V; s++) {
            CoordinateVector k = hv_coord(s, L), x = k;
            R re = 0, im = 0;
            for (int j = 0; j < n; j++) {
                x[d] = j;
                Complex<R> v = a[hv_sid(x, L)];
                R c = (R)hs_cos2pi(j * k[d], n), t = (R)(sign * hs_sin2pi(j * k[d], n));
                re += v.re * c - v.im * t;
                im += v.re * t + v.im * c;
            }
            r[s].re = re, r[s].im = im;
        }
        for (long s = 0; s < V; s++) a[s] = r[s];
        delete[] r;
    }
}
static CoordinateVector dirs(int mask) {
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) c[d] = (mask >> d) & 1;
    return c;
}
static long nmodes(int mask) {
    long n = 1;
    for (int d = 0; d < NDIM; d++) if ((mask >> d) & 1) n *= L[d];
    return n;
}
template <typename R> static Complex<R> part(const Complex<R> &x, int) { return x; }
template <int n, typename R> static Complex<R> part(const Vector<n, Complex<R>> &x, int i) { return x.e(i); }
template <typename T> static T site(const char *n, const CoordinateVector &c) { return hv_at<T>(n, c); }
// the field g is the transform of the field n
template <typename T, typename R> static void transformed(const Field<T> &g, const char *n, int parts, int mask, int sign, const char *w) {
    for (int p = 0; p < parts; p++) {
        Complex<R> *a = new Complex<R>[V];
        for (long s = 0; s < V; s++) a[s] = part(hv_val<T>(n, s), p);
        dft<R>(a, mask, sign);
        for (unsigned i = 0; i < hv_sites(); i++) {
            T y = g.get_value_at(i);
            hv_eq(part(y, p), a[hv_sid(lattice->coordinates(i), L)], w);
        }
        delete[] a;
    }
}
template <typename T, typename R> static void forward(int parts, int mask) {
    Field<T> f;
    hv_fill(f, "f");
    Field<T> g = f.FFT(dirs(mask));
    transformed<T, R>(g, "f", parts, mask, -1, "forward transform");
    for (unsigned i = 0; i < hv_sites(); i++) hv_is(f, i, hv_at<T>("f", lattice->coordinates(i)), "the transform leaves its argument alone");
    Field<T> h = f.FFT(dirs(mask), fft_direction::back);
    transformed<T, R>(h, "f", parts, mask, 1, "backward transform");
    hs_reach("forward");
}
// neighbours of the result, and repeated use with other direction sets
template <typename T, typename R> static void inplace(int parts, int mask) {
    Field<T> f, g;
    hv_fill(f, "f");
    hv_fill(g, "g");
    Field<T> s;
    s = 0;
    s[ALL] = f[X + e_x] + g[X - e_x];
    FFT_field(f, g, dirs(mask));
    transformed<T, R>(g, "f", parts, mask, -1, "transform to a field in use");
    s[ALL] = g[X + e_x];
    Field<T> t;
    FFT_field(s, t, dirs(mask));
    FFT_field(f, f, dirs(mask), fft_direction::back);
    transformed<T, R>(f, "f", parts, mask, 1, "transform in place");
    for (unsigned i = 0; i < hv_sites(); i++) {
        CoordinateVector c = lattice->coordinates(i);
        c[0] += 1;
        hs_eq_i64(hv_wrap(c, L)[0], (lattice->coordinates(i)[0] + 1) % L[0], "neighbour");
    }
    for (int p = 0; p < parts; p++) { // a shifted field's halo is that of the new contents
        Complex<R> *a = new Complex<R>[V];
        for (long q = 0; q < V; q++) a[q] = part(hv_val<T>("f", q), p);
        dft<R>(a, mask, -1);
        for (unsigned i = 0; i < hv_sites(); i++) {
            CoordinateVector c = lattice->coordinates(i);
            c[0] += 1;
            T y = s.get_value_at(i);
            hv_eq(part(y, p), a[hv_sid(hv_wrap(c, L), L)], "neighbours of a transformed field are new");
        }
        delete[] a;
    }
}
template <typename T, typename R> static void inverse(int parts, int mask) {
    Field<T> f;
    hv_fill(f, "f");
    Field<T> h;
    if (mask == (1 << NDIM) - 1) h = f.FFT().FFT(fft_direction::back);
    else h = f.FFT(dirs(mask)).FFT(dirs(mask), fft_direction::back);
    R n = nmodes(mask);
    for (unsigned i = 0; i < hv_sites(); i++) {
        T y = h.get_value_at(i), x = hv_at<T>("f", lattice->coordinates(i));
        for (int p = 0; p < parts; p++) hv_eq(part(y, p), n * part(x, p), "forward and back gives volume times the original");
    }
}
template <typename T> static void reflected(int mask) {
    Field<T> f, g;
    hv_fill(f, "f");
    if (mask == (1 << NDIM) - 1) g = f.reflect();
    else if (mask == 1) g = f.reflect(e_x);
    else g = f.reflect(dirs(mask));
    for (unsigned i = 0; i < hv_sites(); i++) {
        CoordinateVector c = lattice->coordinates(i);
        hv_is(f, i, hv_at<T>("f", c), "reflect leaves its argument alone");
        for (int d = 0; d < NDIM; d++) if ((mask >> d) & 1) c[d] = (L[d] - c[d]) % L[d];
        hv_is(g, i, hv_at<T>("f", c), "reflected");
    }
    Field<T> h = g.reflect(dirs(mask));
    for (unsigned i = 0; i < hv_sites(); i++) hv_is(h, i, hv_at<T>("f", lattice->coordinates(i)), "reflected twice");
    hs_reach("reflected");
}
template <typename R> static void realcomplex() {
    Field<R> f;
    hv_fill(f, "f");
    int all = (1 << NDIM) - 1;
    for (int sign = -1; sign <= 1; sign += 2) {
        auto g = f.FFT_real_to_complex(sign < 0 ? fft_direction::forward : fft_direction::back);
        Complex<R> *a = new Complex<R>[V];
        for (long s = 0; s < V; s++) a[s].re = hv_val<R>("f", s), a[s].im = 0;
        dft<R>(a, all, sign);
        for (unsigned i = 0; i < hv_sites(); i++) {
            Complex<R> y = g.get_value_at(i);
            hv_eq(y, a[hv_sid(lattice->coordinates(i), L)], "real to complex");
        }
        delete[] a;
    }
}
// the modes with type -1 are not looked at, nor the imaginary parts with type 0
template <typename R> static void complexreal(int sign, bool back) {
    Field<Complex<R>> g;
    hv_fill(g, "g");
    bool odd = false;
    for (int d = 0; d < NDIM; d++) if (L[d] % 2) odd = true;
    if (odd) hs_reach("refused"), hs_allow_exit();
    auto f = g.FFT_complex_to_real(sign < 0 ? fft_direction::forward : fft_direction::back);
    hs_check(!odd, "odd sizes are refused");
    Complex<R> *a = new Complex<R>[V];
    for (long s = 0; s < V; s++) {
        CoordinateVector c = hv_coord(s, L);
        int t = hila::FFT_complex_to_real_site(c);
        Complex<R> v = hv_val<Complex<R>>("g", s), w = hv_at<Complex<R>>("g", -c);
        if (t > 0) a[s] = v;
        else if (t == 0) a[s].re = v.re, a[s].im = 0;
        else a[s].re = w.re, a[s].im = -w.im;
    }
    dft<R>(a, (1 << NDIM) - 1, sign);
    for (unsigned i = 0; i < hv_sites(); i++) {
        R y = f.get_value_at(i);
        Complex<R> z = a[hv_sid(lattice->coordinates(i), L)];
        hv_eq(z.im, (R)0, "the transform is real");
        hv_eq(y, z.re, "complex to real");
        hv_is(g, i, hv_at<Complex<R>>("g", lattice->coordinates(i)), "the argument is left alone");
    }
    delete[] a;
}
template <typename R> static void roundreal() {
    Field<R> f;
    hv_fill(f, "f");
    auto h = f.FFT_real_to_complex().FFT_complex_to_real(fft_direction::back);
    for (unsigned i = 0; i < hv_sites(); i++) {
        R y = h.get_value_at(i);
        hv_eq(y, (R)V * hv_at<R>("f", lattice->coordinates(i)), "real to complex to real");
    }
}
// bookkeeping of the half space: any lattice site
static void halfspace() {
    CoordinateVector c, m;
    bool self = true;
    for (int d = 0; d < NDIM; d++) {
        c[d] = (int)hs_int("c", d, 0, L[d] - 1);
        m[d] = c[d] == 0 ? 0 : L[d] - c[d];
        if (m[d] != c[d]) self = false;
    }
    int t = hila::FFT_complex_to_real_site(c), u = hila::FFT_complex_to_real_site(m);
    if (self) hs_check(t == 0, "a mode that is its own mirror image");
    else {
        hs_check(t == 1 || t == -1, "other modes");
        hs_check(t == -u, "one of a pair of modes counts");
    }
}
// sites that agree with the program's odd sizes too
static void wavenumber() {
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) c[d] = (int)hs_int("c", d, -3 * L[d], 3 * L[d]);
    Vector<NDIM, double> k = c.convert_to_k(), l = convert_to_k(c);
    for (int d = 0; d < NDIM; d++) {
        double x = k[d] * L[d] / (2 * M_PI); // an integer up to rounding
        hs_eq_f64(l[d], k[d], "convert_to_k");
        hs_check(x > -L[d] / 2.0 - 1e-9 + 0.4 && x < L[d] / 2.0 + 1e-9, "in the first zone");
        bool found = false;
        for (int n = -L[d]; n <= L[d]; n++)
            if (x > n - 1e-9 && x < n + 1e-9) found = true, hs_check(((n - c[d]) % L[d]) == 0, "the wave number of the mode");
        hs_check(found, "a mode of the lattice");
    }
}
extern "C" void hs_main() {
    hv_init(L = hv_size());
    V = hv_volume(L);
    int all = (1 << NDIM) - 1, mask = hs_parami("mask", -1);
    if (mask < 0) mask = hs_choose("mask", 0, hs_parami("from", 0), all);
    int type = hs_parami("type", 0);
    typedef Vector<2, Complex<double>> V2;
    switch (hs_parami("what", 0)) {
    case 0:
        if (type == 0) forward<Complex<double>, double>(1, mask);
        else if (type == 1) forward<Complex<float>, float>(1, mask);
        else forward<V2, double>(2, mask);
        break;
    case 1:
        if (type == 0) inverse<Complex<double>, double>(1, mask);
        else if (type == 1) inverse<Complex<float>, float>(1, mask);
        else inverse<V2, double>(2, mask);
        break;
    case 2:
        if (type == 0) reflected<Complex<double>>(mask);
        else reflected<Complex<float>>(mask);
        break;
    case 3:
        if (type == 0) realcomplex<double>();
        else realcomplex<float>();
        break;
    case 4:
        if (type == 0) complexreal<double>(hs_parami("sign", -1), false);
        else complexreal<float>(hs_parami("sign", -1), false);
        break;
    case 5: if (type == 0) roundreal<double>(); else roundreal<float>(); break;
    case 6: halfspace(); break;
    case 7: wavenumber(); break;
    case 8: if (type == 0) inplace<Complex<double>, double>(1, mask); else inplace<V2, double>(2, mask); break;
    }
    hs_reach("end");
}
