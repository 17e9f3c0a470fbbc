// Extended precision numbers: doubles are integers here, additions are rounded exactly (--round).
#include "hv.h"
typedef ExtendedPrecision E;
typedef long double L;
static L tot(const E &e) { return (L)e.value + (L)e.compensation + (L)e.compensation2; } // exact
static double lim; // below 2^53: no rounding of the operand itself
static double in(const char *n, int i, double m = 0) {
    if (m == 0) m = lim;
    return hs_f64(n, i, -m, m);
}
// any number the class can represent (the second correction is small)
static E any(const char *n) {
    double c = hs_parami("cbits", 53), d = hs_parami("dbits", 40);
    return E(in(n, 0), in(n, 1, ldexp(1.0, c)), d == 0 ? 0 : in(n, 2, ldexp(1.0, d)));
}
static void adddouble() {
    E a = any("a");
    double x = in("x", 0);
    E b = a;
    b += x;
    hs_check(tot(b) == tot(a) + (L)x, "+= loses nothing");
    hs_check(b.value == a.value + x, "the leading term is the rounded sum");
    hs_reach("added");
}
static void leading() {
    E a = any("a");
    double x = in("x", 0), y = (a.value + x);
    L c = (L)a.value + (L)x - (L)y;
    E b = a;
    b += x;
    hs_check(b.compensation == (double)(a.compensation + (double)c), "the correction is the rounded sum of corrections");
}
static void addext() {
    E a = any("a"), b = any("b"), c = a, d = a;
    c += b;
    hs_check(tot(c) == tot(a) + tot(b), "+= of two loses nothing");
}
static void subext() {
    E a = any("a"), b = any("b"), c = a;
    c -= b;
    hs_check(tot(c) == tot(a) - tot(b), "-= of two loses nothing");
}
static void simple() {
    E a = any("a");
    double x = in("x", 0);
    L t = tot(a);
    hs_check(tot(-a) == -t, "negative");
    hs_check(tot(+a) == t, "plus");
    E b = a;
    hs_check(tot(b) == t, "copy");
    E c;
    c = a;
    hs_check(tot(c) == t, "=");
    c = x;
    hs_check(tot(c) == (L)x, "= double");
    c = 5;
    hs_check(tot(c) == 5 && c.value == 5, "= int");
    E d(x);
    hs_check(tot(d) == (L)x && d.value == x, "from double");
    hs_check(d.to_double() == x && (double)d == x && hila::cast_to<double>(d) == x, "to double");
    hs_check(tot(hila::cast_to<E>(a)) == t, "cast to itself");
    a = a;
    hs_check(tot(a) == t, "a = a");
}
static void operators() {
    E a = any("a"), b = any("b");
    double x = in("x", 0);
    hs_check(tot(a + x) == tot(a) + (L)x, "+ double");
    hs_check(tot(x + a) == tot(a) + (L)x, "double +");
    hs_check(tot(a - x) == tot(a) - (L)x, "- double");
    hs_check(tot(x - a) == (L)x - tot(a), "double -");
    a -= x;
    hs_reach("ops");
}
static void operators2() {
    E a = any("a"), b = any("b");
    if (hs_parami("minus", 0)) hs_check(tot(a - b) == tot(a) - tot(b), "-");
    else hs_check(tot(a + b) == tot(a) + tot(b), "+");
}
template <typename T> static void with(E a, T n, const char *w) {
    L t = tot(a);
    hs_check(tot(a + n) == t + (L)n, w);
    hs_check(tot(n + a) == t + (L)n, w);
    hs_check(tot(a - n) == t - (L)n, w);
    hs_check(tot(n - a) == (L)n - t, w);
    E b = a;
    b += n, hs_check(tot(b) == t + (L)n, w);
    b = a, b -= n, hs_check(tot(b) == t - (L)n, w);
}
// numbers of other types
static void numbers() {
    E a(in("a", 0, 1L << 50));
    switch (hs_parami("type", 0)) {
    case 0: with<unsigned>(a, 3u, "unsigned"); with<unsigned>(a, 4000000000u, "unsigned"); break;
    case 1: with<int>(a, -7, "int"); with<int>(a, -2147483647 - 1, "int"); break;
    case 2: with<long>(a, -7, "long"); with<long>(a, 1L << 40, "long"); with<unsigned long>(a, 12, "unsigned long"); break;
    case 3: with<float>(a, 3.0f, "float"); with<short>(a, -32768, "short"); with<unsigned short>(a, 9, "unsigned short"); break;
    }
}
template <typename T> static void times(E a, T n, const char *w) {
    L t = tot(a) * (L)n;
    hs_check(tot(a * n) == t, w);
    hs_check(tot(n * a) == t, w);
    a *= n;
    hs_check(tot(a) == t, w);
}
static void products() {
    bool large = hs_parami("big", 0) != 0;
    E a = large ? E(in("a", 0, 1L << 15)) : E(in("a", 0, 1L << 50), in("a", 1, 1000), in("a", 2, 100));
    switch (hs_parami("big", 0)) {
    case 0:
        for (int n = hs_parami("from", 0); n <= hs_parami("to", 3); n++) times<int>(a, n, "product with an integer"), times<long>(a, -n, "product with an integer");
        break;
    case 1: times<unsigned>(a, 3000000001u, "product with a large integer"); break;
    case 2: times<int>(a, (1 << 30) + 1, "product with a large integer"); break;
    case 3: times<int>(a, -2147483647 - 1, "product with a large integer"); break;
    case 4: times<signed char>(a, 127, "product with a small type"); times<unsigned char>(a, 255, "product with a small type"); times<short>(a, -32767, "product with a small type"); break;
    case 5: times<long>(a, (1L << 33) + 1, "product with a large integer"); times<unsigned long>(a, 1UL << 34, "product with a large integer"); break;
    }
}
// numbers that are sums of doubles
static E sum(const char *n, int k) {
    E s = 0;
    for (int i = 0; i < k; i++) s += in(n, i);
    return s;
}
static void compare() {
    E a = sum("a", hs_parami("na", 2)), b = sum("b", hs_parami("nb", 1));
    L s = tot(a), t = tot(b);
    switch (hs_parami("op", 0)) {
    case 0: hs_check((a == b) == (s == t), "=="); break;
    case 1: hs_check((a != b) == (s != t), "!="); break;
    case 2: hs_check((a < b) == (s < t), "<"); break;
    case 3: hs_check((a > b) == (s > t), ">"); break;
    case 4: hs_check((a <= b) == (s <= t), "<="); break;
    case 5: hs_check((a >= b) == (s >= t), ">="); break;
    }
}
template <typename T> static void cmp(E a, T n, const char *w) {
    L s = tot(a), t = (L)n;
    hs_check((a == n) == (s == t), w);
    hs_check((a != n) == (s != t), w);
    hs_check((a < n) == (s < t), w);
    hs_check((a > n) == (s > t), w);
    hs_check((a <= n) == (s <= t), w);
    hs_check((a >= n) == (s >= t), w);
    hs_check((n == a) == (s == t), w);
    hs_check((n < a) == (t < s), w);
    hs_check((n > a) == (t > s), w);
    hs_check((n <= a) == (t <= s), w);
    hs_check((n >= a) == (t >= s), w);
    hs_check((n != a) == (t != s), w);
}
static void comparenum() {
    E a = in("a", 0);
    switch (hs_parami("type", 0)) {
    case 0: cmp<double>(a, in("x", 0), "compare with double"); break;
    case 1: cmp<int>(a, -7, "compare with int"); break;
    case 2: cmp<unsigned>(a, 7u, "compare with unsigned"); break;
    case 3: cmp<long>(a, 1L << 40, "compare with long"); break;
    case 4: cmp<unsigned long>(a, 1UL << 40, "compare with unsigned long"); break;
    }
}
static void history() {
    int k = hs_parami("n", 3);
    E s = sum("a", k);
    L t = 0;
    for (int i = 0; i < k; i++) t += (L)in("a", i);
    hs_check(tot(s) == t, "the sum is exact");
}
// all processes
static void reduce() {
    CoordinateVector l;
    for (int d = 0; d < NDIM; d++) l[d] = d == NDIM - 1 ? hs_parami("last", 4) : 4;
    hv_init(l);
    int n = hs_nranks();
    L t = 0;
    Field<double> f;
    for (int i = 0; i < n; i++) t += (L)in("a", i) + (i == 0 ? (L)in("b", i) : 0);
    f = 0;
    for (unsigned i = 0; i < hv_sites(); i++) {
        double v = 0;
        if (i == 0) v = in("a", hs_rank());
        if (i == hv_sites() - 1 && hs_rank() == 0) v = in("b", hs_rank());
        f.set_value_at(v, i);
    }
    E s = 0;
    onsites(ALL) s += f[X];
    hs_check(tot(s) == t, "sum over sites and processes is exact");
}
extern "C" void hs_main() {
    lim = ldexp(1.0, hs_parami("bits", 53));
    switch (hs_parami("what", 0)) {
    case 0: adddouble(); break;
    case 1: leading(); break;
    case 2: addext(); break;
    case 3: subext(); break;
    case 4: simple(); break;
    case 5: operators(); break;
    case 6: operators2(); break;
    case 7: numbers(); break;
    case 8: products(); break;
    case 9: compare(); break;
    case 10: comparenum(); break;
    case 11: history(); break;
    case 12: reduce(); break;
    }
    hs_reach("end");
}
