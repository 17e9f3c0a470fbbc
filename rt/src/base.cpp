// C++ runtime pieces that live in libstdc++.so, FFTW model, small libc functions written in terms of engine primitives.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "hs_stream.h"
#include <string>
#include <map>
#include <cstdlib>
#include <cmath>
#include <new>
#include <unordered_map>
#include <list>
#include <fftw3.h>
#include "../hs.h"
template class std::basic_string<char>;
extern "C" { void __hs_fail(const char *kind, const char *msg); double __hs_csqrt(double); double __hs_frac(double a, double b); }
void *operator new(size_t n) { return malloc(n ? n : 1); }
void *operator new[](size_t n) { return malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t) { return malloc(n ? n : 1); }
void *operator new[](size_t n, std::align_val_t) { return malloc(n ? n : 1); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
namespace std {
#define EARLY __attribute__((init_priority(101)))
EARLY static basic_streambuf<char> coutbuf, cerrbuf, cinbuf;
EARLY ostream cout(&coutbuf), cerr(&cerrbuf), clog(&cerrbuf);
EARLY istream cin(&cinbuf);
EARLY static struct InitBufs { InitBufs() { coutbuf.kind = cerrbuf.kind = basic_streambuf<char>::STDOUT; } } initBufs;
// red-black tree primitives (tree.cc)
typedef _Rb_tree_node_base *P;
static P inc(P x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    P y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static P dec(P x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        P y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    P y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<P>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<P>(x)); }
static void rotl(P x, P &root) {
    P y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(P x, P &root) {
    P y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base &h) throw() {
    P &root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        P xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            P y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotr(xpp, root);
            }
        } else {
            P y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
P _Rb_tree_rebalance_for_erase(P z, _Rb_tree_node_base &h) throw() {
    // plain unlinking without recolouring: order is preserved, balance is not needed here
    P &root = h._M_parent;
    P y = z, x;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    P xp;
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = xp;
            xp->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y->_M_color = _S_black;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = xp;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (h._M_left == z) {
            if (!z->_M_right) h._M_left = z->_M_parent;
            else { P k = x; while (k->_M_left) k = k->_M_left; h._M_left = k; }
        }
        if (h._M_right == z) {
            if (!z->_M_left) h._M_right = z->_M_parent;
            else { P k = x; while (k->_M_right) k = k->_M_right; h._M_right = k; }
        }
    }
    // keep every node black: insert_and_rebalance then behaves as plain insertion below black parents
    if (root) root->_M_color = _S_black;
    return z;
}
// list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept {
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        _M_prev->_M_next = f;
        _List_node_base *t = _M_prev;
        _M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271};
    size_t r = 256279;
    for (size_t p : pr) if (p >= n) { r = p; break; }
    _M_next_resize = r;
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > nb) { size_t w = ne + ni > 2 * nb ? ne + ni : 2 * nb; return {true, _M_next_bkt(w)}; }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    size_t h = seed ^ 1469598103934665603UL;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211UL;
    return h;
}
#define THROW(name, ...) void name(__VA_ARGS__) { __hs_fail("exception", #name); __builtin_unreachable(); }
THROW(__throw_length_error, const char *)
THROW(__throw_logic_error, const char *)
THROW(__throw_out_of_range, const char *)
THROW(__throw_invalid_argument, const char *)
THROW(__throw_bad_alloc)
THROW(__throw_bad_array_new_length)
THROW(__throw_bad_cast)
THROW(__throw_bad_function_call)
THROW(__throw_runtime_error, const char *)
THROW(__throw_bad_optional_access)
void __throw_out_of_range_fmt(const char *, ...) { __hs_fail("exception", "std::out_of_range"); __builtin_unreachable(); }
THROW(__throw_system_error, int)
THROW(__throw_ios_failure, const char *)
} // namespace std
// exact twiddle factors for the orders where they are rational or quadratic
static double tw(int num, int n, bool sine) {
    // cos or sin of 2 pi num / n
    num %= n;
    if (num < 0) num += n;
    long k = (long)num * 24;
    if (k % n == 0) {
        int d = (int)(k / n); // multiples of 15 degrees
        if (sine) d = (d + 18) % 24; // sin x = cos(x - 90)
        int q = d > 12 ? 24 - d : d;
        bool neg = q > 6;
        if (neg) q = 12 - q;
        double v = 0;
        switch (q) {
        case 0: v = 1; break;
        case 2: v = __hs_csqrt(3.0) * 0.5; break;
        case 3: v = __hs_csqrt(2.0) * 0.5; break;
        case 4: v = 0.5; break;
        case 6: v = 0; break;
        default: v = cos(2 * M_PI * num / n); if (sine) v = sin(2 * M_PI * num / n); return v;
        }
        return neg ? -v : v;
    }
    return sine ? sin(2 * M_PI * num / n) : cos(2 * M_PI * num / n);
}
extern "C" double hs_cos2pi(int num, int n) { return tw(num, n, false); }
extern "C" double hs_sin2pi(int num, int n) { return tw(num, n, true); }
template <class T> static void dft(int n, int sign, T *a) {
    T *r = (T *)malloc(sizeof(T) * 2 * n);
    for (int k = 0; k < n; k++) {
        T re = 0, im = 0;
        for (int j = 0; j < n; j++) {
            T c = (T)tw(j * k, n, false), s = (T)(sign * tw(j * k, n, true));
            re += a[2 * j] * c - a[2 * j + 1] * s;
            im += a[2 * j] * s + a[2 * j + 1] * c;
        }
        r[2 * k] = re;
        r[2 * k + 1] = im;
    }
    for (int k = 0; k < 2 * n; k++) a[k] = r[k];
    free(r);
}
extern "C" {
void *fftw_malloc(size_t n) { return malloc(n); }
void fftw_free(void *p) { free(p); }
void *fftwf_malloc(size_t n) { return malloc(n); }
void fftwf_free(void *p) { free(p); }
fftw_plan fftw_plan_dft_1d(int n, fftw_complex *in, fftw_complex *, int sign, unsigned) {
    fftw_plan p = (fftw_plan)malloc(sizeof(hs_fftplan));
    p->n = n; p->sign = sign; p->a = (double *)in;
    return p;
}
fftwf_plan fftwf_plan_dft_1d(int n, fftwf_complex *in, fftwf_complex *, int sign, unsigned) {
    fftwf_plan p = (fftwf_plan)malloc(sizeof(hs_fftfplan));
    p->n = n; p->sign = sign; p->a = (float *)in;
    return p;
}
void fftw_execute(fftw_plan p) { dft<double>(p->n, p->sign, p->a); }
void fftwf_execute(fftwf_plan p) { dft<float>(p->n, p->sign, p->a); }
void fftw_destroy_plan(fftw_plan p) { free(p); }
void fftwf_destroy_plan(fftwf_plan p) { free(p); }
}
extern "C" char *ctime(const time_t *) {
    static char b[] = "Thu Jan  1 00:00:00 1970\n";
    return b;
}
// ------------------------------------------------------------------ random numbers (rt/inc/random)
static int rngMode = 0;
static long rngCount = 0, rngRank = 0;
static unsigned long rngState = 88172645463325252ul, rngSeed = 0;
extern "C" void __hs_rng_seed(unsigned long s) { rngSeed = s; rngState = 88172645463325252ul; }
extern "C" unsigned long __hs_rng_draw(void) {
    if (rngMode == 1) return (unsigned long)hs_int("draw", rngRank * 100000 + rngCount++, -__LONG_MAX__ - 1, __LONG_MAX__);
    rngCount++;
    if (rngMode == 2) return rngRank * 100000 + rngCount; // numbered
    rngState ^= rngState << 13;
    rngState ^= rngState >> 7;
    rngState ^= rngState << 17;
    return rngState;
}
extern "C" void hs_rng_mode(int mode, int rank) { rngMode = mode; rngRank = rank; rngCount = 0; }
extern "C" long hs_rng_count(void) { return rngCount; }
extern "C" unsigned long hs_rng_seed(void) { return rngSeed; }
