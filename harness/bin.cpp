// Binning of modes by wave number
#include "hv.h"
#include <cmath>
static CoordinateVector L;
static long V;
// settings as the user made them
static double mx, pw, width;
static int nb;
static bool bset;
static void fresh() {
    mx = M_PI, pw = 1, nb = 1, bset = false;
    for (int d = 0; d < NDIM; d++) if (L[d] > 2 * nb) nb = L[d] / 2;
    width = mx / nb;
}
static void change(hila::k_binning &b, int op) {
    switch (op) {
    case 0: break;
    case 1: b.bins(3); nb = 3, bset = true, width = mx / nb; break;
    case 2: b.bins(7); nb = 7, bset = true, width = mx / nb; break;
    case 3: b.power(2); pw = 2; break;
    case 4: b.binwidth(0.7); width = 0.7, nb = (int)std::ceil(mx / 0.7), mx = nb * 0.7, bset = false; break;
    case 5:
    case 6: {
        double m = op == 5 ? 2.3 : 4.9;
        b.k_max(m);
        mx = m;
        if (!bset) nb = (int)std::ceil(m / width), mx = width * nb;
        else width = mx / nb;
        break;
    }
    case 7: b.power(0.5); pw = 0.5; break;
    case 8: b.bins(1); nb = 1, bset = true, width = mx; break;
    }
}
static double kof(const CoordinateVector &c) {
    double s = 0;
    for (int d = 0; d < NDIM; d++) {
        int n = c[d] > L[d] / 2 ? c[d] - L[d] : c[d];
        double k = n * 2.0 * M_PI / L[d];
        s += k * k;
    }
    return std::sqrt(s);
}
// the bin of a mode; beyond the last: -1; sure: not at the edge of a bin, where rounding decides
static int binof(long s, bool &sure) {
    double x = std::pow(kof(hv_coord(s, L)) / mx, pw) * nb, r = std::floor(x + 0.5);
    sure = std::fabs(x - r) > 1e-9 || r == 0;
    int b = (int)(r == 0 ? (x < -1e-9 ? -1 : x < 1e-9 ? 0 : std::floor(x)) : std::floor(x));
    return b < nb ? b : -1;
}
static double part(const Complex<double> &x, int i) { return i ? x.im : x.re; }
static double part(double x, int) { return x; }
template <int n, typename T> static double part(const Vector<n, T> &x, int i) { return part(x.e(i / (int)(sizeof(T) / 8)), i % (int)(sizeof(T) / 8)); }
template <typename T> static T value(const char *n, long s) {
    bool sure;
    binof(s, sure);
    T x = hv_val<T>(n, s), z;
    z = 0;
    return sure ? x : z; // at the edge of a bin: nothing
}
template <typename T> static void setvalues(Field<T> &f, const char *n) {
    if (!f.is_allocated()) f.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) f.set_value_at(value<T>(n, hv_sid(lattice->coordinates(i), L)), i);
    f.mark_changed(ALL);
}
static void settings(hila::k_binning &b) {
    hs_check(b.bins() == nb, "number of bins");
    hs_check(std::fabs(b.k_max() - mx) < 1e-12, "maximum");
    hs_check(std::fabs(b.binwidth() - width) < 1e-12, "width of the bins");
    hs_check(std::fabs(b.power() - pw) < 1e-12, "power");
    for (int i = 0; i < nb; i++) {
        double lo = b.bin_min(i), hi = b.bin_max(i);
        hs_check(std::fabs(std::pow(lo / mx, pw) * nb - i) < 1e-9, "lower limit of a bin");
        hs_check(std::fabs(std::pow(hi / mx, pw) * nb - (i + 1)) < 1e-9, "upper limit of a bin");
    }
}
static void counts(hila::k_binning &b) {
    settings(b);
    for (int i = 0; i < nb; i++) {
        long lo = 0, hi = 0;
        double sum = 0;
        for (long s = 0; s < V; s++) {
            bool sure, in = binof(s, sure) == i;
            double k = kof(hv_coord(s, L)), x = std::pow(k / mx, pw) * nb;
            if (sure) { if (in) lo++, hi++, sum += k; }
            else if (std::fabs(x - i) < 1e-6 || std::fabs(x - i - 1) < 1e-6) hi++;
        }
        long n = b.count(i);
        hs_check(n >= lo && n <= hi, "number of modes in a bin");
        double k = b.k(i);
        if (n > 0 && lo == hi) hs_check(std::fabs(k * n - sum) < 1e-9, "mean wave number of a bin"), hs_reach("mean");
        if (n > 0) hs_check(k >= b.bin_min(i) - 1e-9 && k <= b.bin_max(i) + 1e-9, "mean wave number within the bin");
    }
    hs_check(b.count(nb) == 0 && b.count(-1) == 0, "no modes outside");
}
template <typename T> static void sums(hila::k_binning &b) {
    Field<T> f;
    setvalues(f, "f");
    int parts = sizeof(T) / 8;
    auto v = b.bin_k_field(f);
    auto q = b.bin_k_field_squarenorm(f);
    if (hs_rank() != 0) return; // the result is on the first process
    hs_check((int)v.size() == nb && (int)q.size() == nb, "number of bins in the result");
    for (int i = 0; i < nb; i++) {
        double t = 0;
        for (int p = 0; p < parts; p++) {
            double w = 0;
            for (long s = 0; s < V; s++) {
                bool sure;
                if (binof(s, sure) != i) continue;
                double x = part(value<T>("f", s), p);
                w += x;
                t += x * x;
            }
            hs_eq_f64(part(v[i], p), w, "sum of the values in a bin");
        }
        hs_eq_f64(q[i], t, "sum of the squares in a bin");
    }
    hs_reach("sums");
}
// |transform|^2 of a field in bins, for lattices of size 4 (roots of unity are 1, i, -1, -i)
template <typename T> static void density(hila::k_binning &b) {
    Field<T> f;
    hv_fill(f, "f");
    int parts = sizeof(T) / 8;
    bool cplx = hila::contains_complex<T>::value;
    auto q = b.spectraldensity(f);
    if (hs_rank() != 0) return;
    hs_check((int)q.size() == nb, "number of bins in the result");
    double *r = new double[V], *m = new double[V];
    double *tot = new double[nb];
    for (int i = 0; i < nb; i++) tot[i] = 0;
    for (int p = 0; p < parts; p += cplx ? 2 : 1) {
        for (long k = 0; k < V; k++) {
            CoordinateVector kc = hv_coord(k, L);
            r[k] = m[k] = 0;
            for (long s = 0; s < V; s++) {
                CoordinateVector c = hv_coord(s, L);
                int n = 0;
                for (int d = 0; d < NDIM; d++) n += c[d] * kc[d] * (4 / L[d]);
                double x = part(hv_val<T>("f", s), p), y = cplx ? part(hv_val<T>("f", s), p + 1) : 0;
                switch (n % 4) { // exp(-i pi n / 2)
                case 0: r[k] += x, m[k] += y; break;
                case 1: r[k] += y, m[k] -= x; break;
                case 2: r[k] -= x, m[k] -= y; break;
                case 3: r[k] -= y, m[k] += x; break;
                }
            }
            bool sure;
            int i = binof(k, sure);
            hs_check(sure, "settings of the check");
            if (i >= 0) tot[i] += r[k] * r[k] + m[k] * m[k];
        }
    }
    for (int i = 0; i < nb; i++) hs_eq_f64(q[i], tot[i], "spectral density");
    hs_reach("density");
}
static void wavenumber() {
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) c[d] = (int)hs_choose("c", d, -L[d] - 1, 2 * L[d] + 1);
    Vector<NDIM, double> k = c.convert_to_k(), l = convert_to_k(c);
    for (int d = 0; d < NDIM; d++) {
        int n = ((c[d] % L[d]) + L[d]) % L[d];
        if (2 * n > L[d]) n -= L[d];
        hs_check(std::fabs(k[d] - n * 2 * M_PI / L[d]) < 1e-12, "wave number of a mode");
        hs_check(l[d] == k[d], "convert_to_k");
    }
}
extern "C" void hs_main() {
    hv_init(L = hv_size());
    V = hv_volume(L);
    if (hs_parami("what", 0) == 6) {
        wavenumber();
        hs_reach("end");
        return;
    }
    hila::k_binning b;
    fresh();
    settings(b);
    int n = hs_parami("n", 2), ops = hs_parami("ops", 8), type = hs_parami("type", 0);
    for (int i = 0; i < n; i++) {
        change(b, (int)hs_choose("op", i, 0, ops));
        switch (hs_parami("what", 0)) {
        case 0: counts(b); break;
        case 1:
            if (type == 0) sums<double>(b);
            else if (type == 1) sums<Complex<double>>(b);
            else sums<Vector<3, double>>(b);
            break;
        case 2: if (i == n - 1) counts(b); break; // queries only at the end
        case 3: // everything, mixed
            if (i % 2 == 0) sums<double>(b), counts(b);
            else counts(b), sums<double>(b);
            break;
        case 4: break;
        }
    }
    if (hs_parami("what", 0) == 4) {
        b = hila::k_binning(5);
        b.k_max(6.1);
        nb = 5, bset = true, mx = 6.1, pw = 1, width = mx / nb;
        settings(b);
        if (type == 0) density<double>(b);
        else if (type == 1) density<Complex<double>>(b);
        else if (type == 2) density<Vector<2, double>>(b);
        else if (type == 3) density<Vector<2, Complex<double>>>(b);
        else density<Vector<3, double>>(b);
    }
    hs_reach("end");
}
