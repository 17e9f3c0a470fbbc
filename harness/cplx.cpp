// Complex arithmetic: every operator and overload against the definition in real arithmetic.
#include "hv.h"
template <typename T, typename S> static void is(const Complex<T> &a, S re, S im, const char *w) {
    hs_eq_f64((double)a.re, (double)re, w);
    hs_eq_f64((double)a.im, (double)im, w);
}
template <typename T> static void num(T a, double b, const char *w) { hs_eq_f64((double)a, b, w); }
template <typename T> static T sc(const char *n) {
    if (std::is_integral<T>::value) return (T)hs_int(n, 0, std::is_unsigned<T>::value ? 0 : -1000, 1000);
    return (T)hs_f64(n, 0, -1000, 1000);
}
template <typename T> static Complex<T> cx(const char *n) { return Complex<T>((T)hs_f64(n, 0, -1000, 1000), (T)hs_f64(n, 1, -1000, 1000)); }
// complex with complex of two types
template <typename T, typename U> static void two() {
    Complex<T> a = cx<T>("a"), c;
    Complex<U> b = cx<U>("b");
    double x = a.re, y = a.im, u = b.re, v = b.im;
    is(a + b, x + u, y + v, "a + b");
    is(a - b, x - u, y - v, "a - b");
    is(a * b, x * u - y * v, x * v + y * u, "a * b");
    c = a; c += b; is(c, x + u, y + v, "a += b");
    c = a; c -= b; is(c, x - u, y - v, "a -= b");
    c = a; c *= b; is(c, x * u - y * v, x * v + y * u, "a *= b");
    is(a.conj_mul(b), x * u + y * v, x * v - y * u, "conj_mul");
    is(a.mul_conj(b), x * u + y * v, y * u - x * v, "mul_conj");
    hs_check((a == b) == (x == u && y == v), "a == b");
    hs_check((a != b) == (x != u || y != v), "a != b");
    Complex<T> d(b), e;
    e = b;
    is(d, u, v, "conversion");
    is(e, u, v, "assignment");
    is(hila::cast_to<U>(a), x, y, "cast_to");
    if (u != 0 || v != 0) {
        double n = u * u + v * v;
        is(a / b, (x * u + y * v) / n, (y * u - x * v) / n, "a / b");
        c = a; c /= b; is(c, (x * u + y * v) / n, (y * u - x * v) / n, "a /= b");
        c = a / b; is(c * b, x, y, "(a / b) * b");
        hs_reach("division");
    }
}
// complex with a real number
template <typename T, typename A> static void mixed() {
    Complex<T> a = cx<T>("a"), c;
    A s = sc<A>("s");
    double x = a.re, y = a.im, r = (double)s;
    is(a + s, x + r, y, "a + s");
    is(s + a, x + r, y, "s + a");
    is(a - s, x - r, y, "a - s");
    is(s - a, r - x, -y, "s - a");
    is(a * s, x * r, y * r, "a * s");
    is(s * a, x * r, y * r, "s * a");
    c = a; c += s; is(c, x + r, y, "a += s");
    c = a; c -= s; is(c, x - r, y, "a -= s");
    c = a; c *= s; is(c, x * r, y * r, "a *= s");
    c = s; is(c, r, 0.0, "a = s");
    Complex<T> d(s), e(s, s);
    is(d, r, 0.0, "Complex(s)");
    is(e, r, r, "Complex(s, s)");
    hs_check((a == s) == (x == r && y == 0), "a == s");
    hs_check((s == a) == (x == r && y == 0), "s == a");
    hs_check((a != s) == (x != r || y != 0), "a != s");
    hs_check((s != a) == (x != r || y != 0), "s != a");
    if (s != 0) {
        is(a / s, x / r, y / r, "a / s");
        c = a; c /= s; is(c, x / r, y / r, "a /= s");
        hs_reach("division");
    }
    double n = x * x + y * y;
    if (n != 0) is(s / a, r * x / n, -r * y / n, "s / a");
    // imaginary numbers
    is(a * (s * I), -y * r, x * r, "a * (s * I)");
    is((I * s) * a, -y * r, x * r, "(I * s) * a");
    num((s * I) * (I * s), -r * r, "imaginary times imaginary");
    is(a + s * I, x, y + r, "a + s * I");
    is(s * I - a, -x, r - y, "s * I - a");
    is(-(s * I) + a, x, y - r, "-(s * I) + a");
    if (s != 0) {
        is(a / (s * I), y / r, -x / r, "a / (s * I)");
        is((s * I) / s + 0 * a, 0.0, 1.0, "(s * I) / s");
        num((s * I) / (2 * I * s), 0.5, "imaginary over imaginary");
    }
}
// one operand
template <typename T> static void one() {
    Complex<T> a = cx<T>("a"), c;
    double x = a.re, y = a.im, n = x * x + y * y;
    is(-a, -x, -y, "-a");
    is(+a, x, y, "+a");
    is(a.conj(), x, -y, "conj()");
    is(conj(a), x, -y, "conj");
    is(a.dagger(), x, -y, "dagger()");
    is(dagger(a), x, -y, "dagger");
    num(a.squarenorm(), n, "squarenorm()");
    num(squarenorm(a), n, "squarenorm");
    num(a.real(), x, "real()");
    num(real(a), x, "real");
    num(a.imag(), y, "imag()");
    num(imag(a), y, "imag");
    c = a; c.real() = 3; c.imag() += 1; is(c, 3.0, y + 1, "real() = ");
    is(Complex<T>(nullptr), 0.0, 0.0, "Complex(nullptr)");
    // operand and destination are the same variable
    c = a; c += c; is(c, 2 * x, 2 * y, "a += a");
    c = a; c -= c; is(c, 0.0, 0.0, "a -= a");
    c = a; c *= c; is(c, x * x - y * y, 2 * x * y, "a *= a");
    c = a; c *= c.conj(); is(c, n, 0.0, "a *= conj(a)");
    c = a; c += c.re; is(c, 2 * x, y, "a += re(a)");
    c = a; c -= c.im; is(c, x - y, y, "a -= im(a)");
    c = a; c *= c.re; is(c, x * x, x * y, "a *= re(a)");
    c = a; c *= c.im; is(c, x * y, y * y, "a *= im(a)");
    if (n != 0) { c = a; c /= c; is(c, 1.0, 0.0, "a /= a"); }
    if (x != 0) { c = a; c /= c.re; is(c, 1.0, y / x, "a /= re(a)"); }
    if (y != 0) { c = a; c /= c.im; is(c, x / y, 1.0, "a /= im(a)"); }
    double r = a.abs();
    hs_check(r >= 0, "abs() negative");
    num(r * r, n, "abs()");
    num(abs(a), r, "abs");
    num(a.arg(), atan2(y, x), "arg()");
    num(arg(a), atan2(y, x), "arg");
    T p = (T)hs_f64("r", 0, 0, 10), t = (T)hs_f64("t", 0, -4, 4);
    double ct = cos((double)t), st = sin((double)t);
    is(polar(p, t), p * ct, p * st, "polar");
    c.polar(p, t); is(c, p * ct, p * st, "polar()");
    is(expi(t), ct, st, "expi");
    is(exp(I * (double)t), ct, st, "exp of an imaginary number");
    double ex = exp(x), cy = cos(y), sy = sin(y), ch = cosh(y), sh = sinh(y), chx = cosh(x), shx = sinh(x), cxx = cos(x), sxx = sin(x);
    is(exp(a), ex * cy, ex * sy, "exp");
    is(sin(a), sxx * ch, cxx * sh, "sin");
    is(cos(a), cxx * ch, -sxx * sh, "cos");
    is(sinh(a), shx * cy, chx * sy, "sinh");
    is(cosh(a), chx * cy, shx * sy, "cosh");
    is(tan(a) * cos(a), sxx * ch, cxx * sh, "tan");
    if (n != 0) is(log(a), 0.5 * log(n), atan2(y, x), "log");
    // several complex numbers in one variable
    Vector<2, Complex<T>> w;
    w.e(0) = a;
    w.e(1) = cx<T>("b");
    auto z = hila::get_complex_in_var(w, 1);
    is(z, (double)w.e(1).re, (double)w.e(1).im, "get_complex_in_var");
    hila::set_complex_in_var(w, 1, a);
    is(w.e(1), x, y, "set_complex_in_var");
    auto v = I * w;
    is(v.e(0), -y, x, "I * vector");
    is((w * I).e(1), -y, x, "vector * I");
}
extern "C" void hs_main() {
    switch (hs_parami("what", 0)) {
    case 0: one<double>(); break;
    case 1: one<float>(); break;
    case 2: two<double, double>(); break;
    case 3: two<double, float>(); break;
    case 4: two<float, double>(); break;
    case 5: mixed<double, double>(); break;
    case 6: mixed<double, int>(); break;
    case 7: mixed<float, double>(); break;
    case 8: mixed<float, float>(); break;
    case 9: mixed<float, int>(); break;
    case 10: mixed<double, long>(); break;
    case 11: mixed<double, float>(); break;
    case 12: mixed<double, unsigned>(); break;
    default: two<float, float>();
    }
    hs_reach("end");
}
