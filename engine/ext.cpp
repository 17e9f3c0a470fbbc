// Models of external functions and intrinsics.
#include "interp.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Intrinsics.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <climits>
#include <cfloat>
using namespace llvm;

extern bool g_printOut;
extern std::map<std::string, std::string> g_params;
#define RET(v) do { x.ret[0] = (v); return X_OK; } while (0)
static Val C_(uint64_t c) { return Val{c, nullptr}; }
static uint64_t dbits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static double bitsd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t fbits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static float bitsf(uint64_t v) { uint32_t y = (uint32_t)v; float d; memcpy(&d, &y, 4); return d; }
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static uint64_t mallocSym(ExtCall &x, int arg) {
    if (x.a[arg].e) { // a symbolic size that is small: room for the largest, and hs_objsize() tells the size
        const int MAX = 8192;
        Expr *big = mkNot(mkCmp(O_ULE, x.E.expr(x.a[arg], 64, 0), mkConst(MAX, 64)));
        if (!x.E.feasible(big)) {
            uint64_t a = x.E.alloc(MAX, true);
            x.E.S->symSize[(uint32_t)(a >> 32)] = x.a[arg];
            return a;
        }
    }
    return x.E.alloc(x.u(arg), true);
}
static int x_malloc(ExtCall &x) { RET(C_(mallocSym(x, 0))); }
static int h_objsize(ExtCall &x) { // bytes of the heap block that starts here, -1 if there is none
    uint64_t a = x.u(0);
    Obj *o = a ? x.E.S->mem.get(a >> 32) : nullptr;
    if (!o || (uint32_t)a != OBJ_BIAS || !o->heap) RET(C_(-1));
    auto it = x.E.S->symSize.find(a >> 32);
    RET(it == x.E.S->symSize.end() ? C_(o->size) : it->second);
}
static int x_calloc(ExtCall &x) { RET(C_(x.E.alloc(x.u(0) * x.u(1), true, 0))); }
static int x_free(ExtCall &x) { x.E.freeObj(x.u(0)); return X_OK; }
static int x_memalign(ExtCall &x) { RET(C_(x.E.alloc(x.u(1), true))); }
static int x_posix_memalign(ExtCall &x) {
    uint64_t p = x.u(0), a = mallocSym(x, 2);
    x.E.storeLeaf(p, Leaf{0, 64, 2, 8}, C_(a));
    RET(C_(0));
}
static int x_realloc(ExtCall &x) {
    uint64_t p = x.u(0), n = x.u(1);
    uint64_t a = x.E.alloc(n, true);
    if (p) {
        uint32_t off;
        Obj *o = x.E.objAt(p, 0, false, off);
        uint64_t m = std::min<uint64_t>(n, o->size);
        std::vector<uint8_t> b(m + 1);
        std::vector<uint32_t> s;
        x.E.readBytes(p, m, b.data(), s);
        x.E.writeBytes(a, m, b.data(), s);
        x.E.freeObj(p);
    }
    RET(C_(a));
}
static int x_memcpy(ExtCall &x) {
    if (x.a[1].e && !x.a[2].e && !x.a[0].e && x.a[2].c <= 64 && x.a[2].c) {
        // small copy from a symbolic address whose candidates hold concrete bytes: select instead of fork
        Expr *ae = x.a[1].e;
        uint64_t n = x.a[2].c, d = x.a[0].c;
        std::vector<u128> vals = x.E.readableValues(ae, n);
        bool conc = true;
        std::vector<std::vector<uint8_t>> bs;
        for (u128 v : vals) {
            std::vector<uint8_t> b(n);
            std::vector<uint32_t> sy;
            x.E.readBytes((uint64_t)v, n, b.data(), sy);
            conc = conc && sy.empty();
            bs.push_back(b);
        }
        if (conc) {
            unsigned g = n % 4 == 0 ? 4 : 1;
            for (uint64_t o = 0; o < n; o += g) {
                uint32_t w = 0;
                memcpy(&w, &bs[0][o], g);
                Expr *r = mkConst(w, 8 * g);
                for (size_t k = 1; k < bs.size(); k++) {
                    w = 0;
                    memcpy(&w, &bs[k][o], g);
                    r = mkIte(mkCmp(O_EQ, ae, mkConst(vals[k], 64)), mkConst(w, 8 * g), r);
                }
                x.E.storeLeaf(d + o, Leaf{0, (uint16_t)(8 * g), 0, (uint8_t)g}, x.E.fromExpr(r));
            }
            if (x.nret) x.ret[0] = C_(d);
            return X_OK;
        }
    }
    uint64_t d = x.u(0), s = x.u(1), n = x.u(2);
    if (n) {
        std::vector<uint8_t> b(n);
        std::vector<uint32_t> sy;
        x.E.readBytes(s, n, b.data(), sy);
        x.E.writeBytes(d, n, b.data(), sy);
    }
    if (x.nret) x.ret[0] = C_(d);
    return X_OK;
}
static int x_memset(ExtCall &x) {
    uint64_t d = x.u(0), n = x.u(2);
    uint8_t v = (uint8_t)x.u(1);
    if (n) {
        std::vector<uint8_t> b(n, v);
        x.E.writeBytes(d, n, b.data(), {});
    }
    if (x.nret) x.ret[0] = C_(d);
    return X_OK;
}
static int x_memcmp(ExtCall &x) {
    uint64_t p = x.u(0), q = x.u(1), n = x.u(2);
    std::vector<uint8_t> a(n + 1), b(n + 1);
    std::vector<uint32_t> sa, sb;
    x.E.readBytes(p, n, a.data(), sa);
    x.E.readBytes(q, n, b.data(), sb);
    if (sa.empty() && sb.empty()) {
        int r = memcmp(a.data(), b.data(), n);
        RET(C_((uint32_t)(r < 0 ? -1 : r > 0)));
    }
    Expr *eq = mkConst(1, 1);
    Leaf l{0, 8, 0, 1};
    for (uint64_t i = 0; i < n; i++) {
        l.off = (uint32_t)i;
        eq = mkAnd(eq, mkCmp(O_EQ, x.E.expr(x.E.loadLeaf(p, l), 8, 0), x.E.expr(x.E.loadLeaf(q, l), 8, 0)));
    }
    RET(x.E.fromExpr(mkZext(mkNot(eq), 32)));
}
static int x_strlen(ExtCall &x) { RET(C_(x.E.cstr(x.u(0)).size())); }
static int x_strcmp(ExtCall &x) {
    int r = strcmp(x.E.cstr(x.u(0)).c_str(), x.E.cstr(x.u(1)).c_str());
    RET(C_((uint32_t)(r < 0 ? -1 : r > 0)));
}
static int x_strncmp(ExtCall &x) {
    int r = strncmp(x.E.cstr(x.u(0)).c_str(), x.E.cstr(x.u(1)).c_str(), x.u(2));
    RET(C_((uint32_t)(r < 0 ? -1 : r > 0)));
}
static int x_memchr(ExtCall &x) {
    uint64_t p = x.u(0), n = x.u(2);
    uint8_t c = (uint8_t)x.u(1);
    Leaf l{0, 8, 0, 1};
    for (uint64_t i = 0; i < n; i++) {
        Val v = x.E.loadLeaf(p + i, l);
        if (v.e ? x.E.branch(mkCmp(O_EQ, x.E.expr(v, 8, 0), mkConst(c, 8))) : (uint8_t)v.c == c) RET(C_(p + i));
    }
    RET(C_(0));
}
static int x_strchr(ExtCall &x) {
    uint64_t p = x.u(0);
    std::string s = x.E.cstr(p);
    char c = (char)x.u(1);
    size_t k = c ? s.find(c) : s.size();
    RET(C_(k == std::string::npos ? 0 : p + k));
}
static int x_strcpy(ExtCall &x) {
    uint64_t d = x.u(0);
    std::string s = x.E.cstr(x.u(1));
    x.E.writeBytes(d, s.size() + 1, (const uint8_t *)s.c_str(), {});
    RET(C_(d));
}
static int x_strdup(ExtCall &x) {
    std::string s = x.E.cstr(x.u(0));
    uint64_t d = x.E.alloc(s.size() + 1, true);
    x.E.writeBytes(d, s.size() + 1, (const uint8_t *)s.c_str(), {});
    RET(C_(d));
}
static int x_zero(ExtCall &x) {
    for (uint32_t i = 0; i < x.nret && i < 16; i++) x.ret[i] = C_(0);
    return X_OK;
}
static int x_nop(ExtCall &x) { return x_zero(x); }

// ------------------------------------------------------------- math
static int widthOf(ExtCall &x) { return x.E.ti(x.ci.retTy)->leaves[0].bits; }
typedef double (*D1)(double);
typedef float (*F1)(float);
static std::map<std::string, D1> d1 = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"exp", exp}, {"log", log}, {"asin", asin}, {"acos", acos}, {"atan", atan},
    {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"log10", log10}, {"log2", log2}, {"exp2", exp2}, {"cbrt", cbrt}, {"expm1", expm1}, {"log1p", log1p},
    {"erf", erf}, {"erfc", erfc}, {"tgamma", tgamma}, {"lgamma", lgamma}, {"asinh", asinh}, {"acosh", acosh}, {"atanh", atanh}};
static std::map<std::string, F1> f1 = {{"sin", sinf}, {"cos", cosf}, {"tan", tanf}, {"exp", expf}, {"log", logf}, {"asin", asinf}, {"acos", acosf}, {"atan", atanf},
    {"sinh", sinhf}, {"cosh", coshf}, {"tanh", tanhf}, {"log10", log10f}, {"log2", log2f}, {"exp2", exp2f}, {"cbrt", cbrtf}};
static std::string mathName(const std::string &n) {
    std::string s = n;
    if (starts(s, "llvm.")) {
        s = s.substr(5);
        size_t d = s.find('.');
        if (d != std::string::npos) s = s.substr(0, d);
    }
    return s;
}
static std::string baseName(const std::string &m, int w) {
    if (starts(m, "__") && m.size() > 9 && m.substr(m.size() - 7) == "_finite") return m.substr(2, m.size() - 9);
    if (w != 64 && m.size() > 1 && (m.back() == 'f' || m.back() == 'l')) {
        std::string b = m.substr(0, m.size() - 1);
        if (d1.count(b) || b == "pow" || b == "atan2" || b == "sqrt" || b == "fabs" || b == "floor" || b == "ceil" || b == "trunc" || b == "rint" || b == "round" || b == "nearbyint" || b == "fmod" ||
            b == "fmax" || b == "fmin" || b == "copysign" || b == "hypot" || b == "ldexp" || b == "nextafter" || b == "fma")
            return b;
    }
    return m;
}
static Expr *fx(ExtCall &x, int i, int w) { return x.E.expr(x.a[i], w, 1); }
static int lanes(ExtCall &x) { return (int)x.nret; }
static Val math1(ExtCall &x, const std::string &b, const Val &v, int w) {
    if (b == "sqrt") {
        if (!v.e && g_exact && g_fpmode == FP_REAL && (w == 64 || w == 32)) {
            double d = w == 64 ? bitsd(v.c) : bitsf(v.c), r = sqrt(d);
            bool perfect = r == (double)(long)r && r * r == d && r < 1e6;
            if (d >= 0 && !perfect) return Val{0, mk1(O_FSQRT, w == 64 ? mkConst(dbits(d), 64, S_FP) : mkConst(fbits((float)d), 32, S_FP), w, S_FP)};
        }
        if (!v.e && w == 64) return C_(dbits(sqrt(bitsd(v.c))));
        if (!v.e && w == 32) return C_(fbits(sqrtf(bitsf(v.c))));
        return x.E.fromExpr(mkF1(O_FSQRT, x.E.expr(v, w, 1)));
    }
    static const std::map<std::string, Op> un = {{"fabs", O_FABS}, {"floor", O_FFLOOR}, {"ceil", O_FCEIL}, {"trunc", O_FTRUNC}, {"rint", O_FRINT}, {"nearbyint", O_FRINT}, {"roundeven", O_FRINT}, {"round", O_FROUND}};
    auto it = un.find(b);
    if (it != un.end()) return x.E.fromExpr(mkF1(it->second, x.E.expr(v, w, 1)));
    Expr *e = x.E.expr(v, w, 1);
    if (e->isConst()) {
        if (w == 32 && f1.count(b)) return C_(fbits(f1[b](bitsf(v.c))));
        double r = d1[b](constF(e));
        if (w == 64) return C_(dbits(r));
        return x.E.fromExpr(mkConst(bitsOfF(r, w), w, S_FP));
    }
    return x.E.fromExpr(mkUF(b, {e}, w));
}
static int x_math1(ExtCall &x) {
    int w = widthOf(x);
    std::string b = baseName(mathName(x.name), w);
    std::vector<Val> r;
    for (int i = 0; i < lanes(x); i++) r.push_back(math1(x, b, x.a[i], w));
    for (int i = 0; i < lanes(x); i++) x.ret[i] = r[i];
    return X_OK;
}
static Val math2(ExtCall &x, const std::string &b, const Val &va, const Val &vb, int w) {
    Expr *p = x.E.expr(va, w, 1), *q = x.E.expr(vb, w, 1);
    bool conc = p->isConst() && q->isConst();
    auto mk = [&](double d) { return x.E.fromExpr(mkConst(bitsOfF(d, w), w, S_FP)); };
    if (b == "fmax" || b == "maxnum" || b == "maximum") {
        if (conc) return mk(fmax(constF(p), constF(q)));
        return x.E.fromExpr(mkIte(mkFcmp(O_FUNO, p, p), q, mkIte(mkFcmp(O_FLT, p, q), q, p)));
    }
    if (b == "fmin" || b == "minnum" || b == "minimum") {
        if (conc) return mk(fmin(constF(p), constF(q)));
        return x.E.fromExpr(mkIte(mkFcmp(O_FUNO, p, p), q, mkIte(mkFcmp(O_FLT, q, p), q, p)));
    }
    if (b == "copysign") {
        if (conc) return mk(copysign(constF(p), constF(q)));
        Expr *neg = mkFcmp(O_FLT, q, mkConst(0, w, S_FP));
        Expr *ab = mkF1(O_FABS, p);
        return x.E.fromExpr(mkIte(neg, mkF1(O_FNEG, ab), ab));
    }
    if (b == "fmod") return x.E.fromExpr(mkF2(O_FREM, p, q));
    if (b == "hypot") {
        if (conc) return mk(hypot(constF(p), constF(q)));
        return x.E.fromExpr(mkF1(O_FSQRT, mkF2(O_FADD, mkF2(O_FMUL, p, p), mkF2(O_FMUL, q, q))));
    }
    if (b == "pow") {
        if (conc) return mk(pow(constF(p), constF(q)));
        if (q->isConst()) {
            double k = constF(q);
            if (k == floor(k) && fabs(k) <= 32) {
                int n = (int)fabs(k);
                Expr *r = mkConst(bitsOfF(1.0, w), w, S_FP);
                for (int i = 0; i < n; i++) r = mkF2(O_FMUL, r, p);
                if (k < 0) r = mkF2(O_FDIV, mkConst(bitsOfF(1.0, w), w, S_FP), r);
                return x.E.fromExpr(r);
            }
            if (k == 0.5) return x.E.fromExpr(mkF1(O_FSQRT, p));
        }
        return x.E.fromExpr(mkUF("pow", {p, q}, w));
    }
    if (b == "atan2") {
        if (conc) return mk(atan2(constF(p), constF(q)));
        return x.E.fromExpr(mkUF("atan2", {p, q}, w));
    }
    if (b == "nextafter" && conc) return w == 64 ? mk(nextafter(constF(p), constF(q))) : mk(nextafterf((float)constF(p), (float)constF(q)));
    throw Abort{"engine", "math function " + b, false};
}
static int x_math2(ExtCall &x) {
    int w = widthOf(x), n = lanes(x);
    std::string b = baseName(mathName(x.name), w);
    std::vector<Val> r;
    for (int i = 0; i < n; i++) r.push_back(math2(x, b, x.a[i], x.a[n + i], w));
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int x_fma(ExtCall &x) {
    int w = widthOf(x), n = lanes(x);
    bool fused = x.name.find("fmuladd") == std::string::npos;
    std::vector<Val> r;
    for (int i = 0; i < n; i++) {
        Expr *a = fx(x, i, w), *b = fx(x, n + i, w), *c = fx(x, 2 * n + i, w);
        r.push_back(x.E.fromExpr(fused && g_fpmode == FP_IEEE ? mkFma(a, b, c) : mkF2(O_FADD, mkF2(O_FMUL, a, b), c)));
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int x_powi(ExtCall &x) {
    int w = widthOf(x);
    int k = (int)x.u(1);
    Expr *p = fx(x, 0, w), *r = mkConst(bitsOfF(1.0, w), w, S_FP);
    for (int i = 0; i < abs(k); i++) r = mkF2(O_FMUL, r, p);
    if (k < 0) r = mkF2(O_FDIV, mkConst(bitsOfF(1.0, w), w, S_FP), r);
    RET(x.E.fromExpr(r));
}
static int x_sincos(ExtCall &x) {
    bool f = x.name == "sincosf";
    int w = f ? 32 : 64;
    Leaf l{0, (uint16_t)w, 1, (uint8_t)(w / 8)};
    uint64_t p = x.u(1), q = x.u(2);
    x.E.storeLeaf(p, l, math1(x, "sin", x.a[0], w));
    x.E.storeLeaf(q, l, math1(x, "cos", x.a[0], w));
    return X_OK;
}
static int x_lround(ExtCall &x) {
    int w = x.E.ti(x.ci.tys[0])->leaves[0].bits, rw = widthOf(x);
    Expr *r = mkFPToInt(mkF1(x.name.find("rint") != std::string::npos ? O_FRINT : O_FROUND, fx(x, 0, w)), rw, true);
    RET(x.E.fromExpr(r));
}
static int x_ldexp(ExtCall &x) {
    int w = widthOf(x);
    int k = (int)x.u(1);
    RET(x.E.fromExpr(mkF2(O_FMUL, fx(x, 0, w), mkConst(bitsOfF(ldexp(1.0, k), w), w, S_FP))));
}
static int x_isfpclass(ExtCall &x) {
    int w = x.E.ti(x.ci.tys[0])->leaves[0].bits;
    unsigned m = (unsigned)x.u(1);
    Expr *v = fx(x, 0, w), *r = mkConst(0, 1);
    Expr *inf = mkConst(bitsOfF(INFINITY, w), w, S_FP), *ninf = mkConst(bitsOfF(-INFINITY, w), w, S_FP), *zero = mkConst(0, w, S_FP);
    Expr *nan = mkFcmp(O_FUNO, v, v);
    if (m & 3) r = mkOr(r, nan);
    Expr *isInf = mkFcmp(O_FEQ, v, inf), *isN = mkFcmp(O_FEQ, v, ninf);
    if (m & 4) r = mkOr(r, isN);
    if (m & 512) r = mkOr(r, isInf);
    Expr *fin = mkNot(mkOr(nan, mkOr(isInf, isN)));
    if (m & 8) r = mkOr(r, mkAnd(fin, mkFcmp(O_FLT, v, zero)));
    if (m & 256) r = mkOr(r, mkAnd(fin, mkFcmp(O_FLT, zero, v)));
    if (m & 96) r = mkOr(r, mkFcmp(O_FEQ, v, zero));
    RET(x.E.fromExpr(r));
}
static int x_csqrt(ExtCall &x) { // square root of a constant as an exact real (REAL mode)
    double d = bitsd(x.u(0));
    if (g_fpmode == FP_REAL) RET((Val{0, mk1(O_FSQRT, mkConst(dbits(d), 64, S_FP), 64, S_FP)}));
    RET(C_(dbits(sqrt(d))));
}

// ------------------------------------------------------------- integer intrinsics
static int x_minmax(ExtCall &x) {
    int n = lanes(x), w = widthOf(x);
    std::vector<Val> r;
    for (int i = 0; i < n; i++) {
        Expr *a = x.E.expr(x.a[i], w, 0), *b = x.E.expr(x.a[n + i], w, 0);
        bool sg = x.name.find(".s") != std::string::npos, mx = x.name.find("max") != std::string::npos;
        Expr *lt = mkCmp(sg ? O_SLT : O_ULT, a, b);
        r.push_back(x.E.fromExpr(mkIte(lt, mx ? b : a, mx ? a : b)));
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int x_abs(ExtCall &x) {
    bool intr = starts(x.name, "llvm.");
    int n = lanes(x), w = widthOf(x);
    (void)intr;
    std::vector<Val> r;
    for (int i = 0; i < n; i++) {
        Expr *a = x.E.expr(x.a[i], w, 0);
        r.push_back(x.E.fromExpr(mkIte(mkCmp(O_SLT, a, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), a), a)));
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int x_overflow(ExtCall &x) {
    auto &L = x.E.ti(x.ci.retTy)->leaves;
    int w = L[0].bits;
    bool sg = x.name.find(".s") != std::string::npos;
    Op op = x.name.find("add") != std::string::npos ? O_ADD : x.name.find("sub") != std::string::npos ? O_SUB : O_MUL;
    Expr *a = x.E.expr(x.a[0], w, 0), *b = x.E.expr(x.a[1], w, 0);
    int W = std::min(128, 2 * w);
    Expr *wa = sg ? mkSext(a, W) : mkZext(a, W), *wb = sg ? mkSext(b, W) : mkZext(b, W);
    Expr *r = mkBin(op, wa, wb), *t = mkExtract(r, 0, w);
    Expr *back = sg ? mkSext(t, W) : mkZext(t, W);
    x.ret[0] = x.E.fromExpr(t);
    x.ret[1] = x.E.fromExpr(mkNot(mkCmp(O_EQ, back, r)));
    return X_OK;
}
static int x_bits(ExtCall &x) { // ctpop ctlz cttz bswap bitreverse
    int w = widthOf(x);
    std::string m = mathName(x.name);
    int n = lanes(x);
    std::vector<Val> out;
    for (int li = 0; li < n; li++) {
        Expr *a = x.E.expr(x.a[li], w, 0);
        Expr *r;
        if (m == "ctpop") {
            r = mkConst(0, w);
            for (int i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(a, i, 1), w));
        } else if (m == "ctlz" || m == "cttz") {
            r = mkConst(w, w);
            for (int k = 0; k < w; k++) {
                int bit = m == "ctlz" ? k : w - 1 - k;
                r = mkIte(mkExtract(a, bit, 1), mkConst(m == "ctlz" ? w - 1 - bit : bit, w), r);
            }
        } else if (m == "bswap") {
            r = mkExtract(a, w - 8, 8);
            for (int i = w / 8 - 2; i >= 0; i--) r = mkConcat(mkExtract(a, 8 * i, 8), r);
        } else if (m == "bitreverse") {
            r = mkExtract(a, w - 1, 1);
            for (int i = w - 2; i >= 0; i--) r = mkConcat(mkExtract(a, i, 1), r);
        } else throw Abort{"engine", m, false};
        out.push_back(x.E.fromExpr(r));
    }
    for (int i = 0; i < n; i++) x.ret[i] = out[i];
    return X_OK;
}
static int x_funnel(ExtCall &x) {
    int w = widthOf(x);
    bool l = x.name.find("fshl") != std::string::npos;
    int n = lanes(x);
    std::vector<Val> out;
    for (int i = 0; i < n; i++) {
        Expr *a = x.E.expr(x.a[i], w, 0), *b = x.E.expr(x.a[n + i], w, 0), *s = x.E.expr(x.a[2 * n + i], w, 0);
        s = mkBin(O_UREM, s, mkConst(w, w));
        Expr *inv = mkBin(O_SUB, mkConst(w, w), s);
        Expr *r;
        Expr *z = mkCmp(O_EQ, s, mkConst(0, w));
        if (l) r = mkIte(z, a, mkBin(O_OR, mkBin(O_SHL, a, s), mkBin(O_LSHR, b, inv)));
        else r = mkIte(z, b, mkBin(O_OR, mkBin(O_SHL, a, inv), mkBin(O_LSHR, b, s)));
        out.push_back(x.E.fromExpr(r));
    }
    for (int i = 0; i < n; i++) x.ret[i] = out[i];
    return X_OK;
}
static int x_sat(ExtCall &x) { // usub.sat, uadd.sat
    int w = widthOf(x), n = lanes(x);
    std::vector<Val> out;
    for (int i = 0; i < n; i++) {
        Expr *a = x.E.expr(x.a[i], w, 0), *b = x.E.expr(x.a[n + i], w, 0);
        if (x.name.find("usub") != std::string::npos) out.push_back(x.E.fromExpr(mkIte(mkCmp(O_ULT, a, b), mkConst(0, w), mkBin(O_SUB, a, b))));
        else {
            Expr *s = mkBin(O_ADD, a, b);
            out.push_back(x.E.fromExpr(mkIte(mkCmp(O_ULT, s, a), mkConst(maskw(w), w), s)));
        }
    }
    for (int i = 0; i < n; i++) x.ret[i] = out[i];
    return X_OK;
}
static int x_vreduce(ExtCall &x) {
    auto &L = x.E.ti(x.ci.tys.back())->leaves;
    int w = L[0].bits;
    int n = (int)x.a.size();
    std::string s = x.name;
    if (s.find(".fadd") != std::string::npos || s.find(".fmul") != std::string::npos) {
        Expr *r = fx(x, 0, w);
        for (int i = 1; i < n; i++) r = mkF2(s.find(".fadd") != std::string::npos ? O_FADD : O_FMUL, r, fx(x, i, w));
        RET(x.E.fromExpr(r));
    }
    if (s.find(".fmax") != std::string::npos || s.find(".fmin") != std::string::npos) {
        Val r = x.a[0];
        for (int i = 1; i < n; i++) r = math2(x, s.find(".fmax") != std::string::npos ? "fmax" : "fmin", r, x.a[i], w);
        RET(r);
    }
    Expr *r = x.E.expr(x.a[0], w, 0);
    for (int i = 1; i < n; i++) {
        Expr *b = x.E.expr(x.a[i], w, 0);
        if (s.find(".add") != std::string::npos) r = mkBin(O_ADD, r, b);
        else if (s.find(".mul") != std::string::npos) r = mkBin(O_MUL, r, b);
        else if (s.find(".and") != std::string::npos) r = mkBin(O_AND, r, b);
        else if (s.find(".or") != std::string::npos) r = mkBin(O_OR, r, b);
        else if (s.find(".xor") != std::string::npos) r = mkBin(O_XOR, r, b);
        else if (s.find(".smax") != std::string::npos) r = mkIte(mkCmp(O_SLT, r, b), b, r);
        else if (s.find(".smin") != std::string::npos) r = mkIte(mkCmp(O_SLT, b, r), b, r);
        else if (s.find(".umax") != std::string::npos) r = mkIte(mkCmp(O_ULT, r, b), b, r);
        else if (s.find(".umin") != std::string::npos) r = mkIte(mkCmp(O_ULT, b, r), b, r);
        else throw Abort{"engine", s, false};
    }
    RET(x.E.fromExpr(r));
}

// ------------------------------------------------------------- printing / scanning
static std::string fmtPrintf(ExtCall &x, const std::string &f, size_t ai) {
    std::string out;
    size_t i = 0;
    // argument leaves start at index ai
    auto next = [&]() -> Val { return ai < x.a.size() ? x.a[ai++] : C_(0); };
    while (i < f.size()) {
        if (f[i] != '%') { out += f[i++]; continue; }
        size_t j = i + 1;
        std::string spec = "%";
        while (j < f.size() && strchr("-+ #0123456789.*", f[j])) {
            if (f[j] == '*') spec += std::to_string((int)x.E.cval(next(), "printf"));
            else spec += f[j];
            j++;
        }
        std::string len;
        while (j < f.size() && strchr("hlLzjt", f[j])) len += f[j++];
        char c = j < f.size() ? f[j] : '%';
        i = j + 1;
        char buf[600];
        if (c == '%') { out += '%'; continue; }
        if (strchr("diuxXoc", c)) {
            Val v = next();
            if (v.e) { out += "?"; continue; }
            if (c == 'c') { snprintf(buf, sizeof buf, (spec + "c").c_str(), (int)v.c); out += buf; continue; }
            long lv = len.empty() || len[0] == 'h' ? (c == 'd' || c == 'i' ? (long)(int)v.c : (long)(unsigned)v.c) : (long)v.c;
            snprintf(buf, sizeof buf, (spec + "l" + c).c_str(), lv);
            out += buf;
        } else if (strchr("eEfFgGaA", c)) {
            Val v = next();
            if (v.e) { out += v.e->isConst() ? std::to_string(constF(v.e)) : "?"; continue; }
            snprintf(buf, sizeof buf, (spec + c).c_str(), bitsd(v.c));
            out += buf;
        } else if (c == 's') {
            Val v = next();
            std::string s;
            uint64_t p = x.E.cval(v, "printf");
            // bounded read when a precision is given
            size_t pr = spec.find('.');
            if (pr != std::string::npos) {
                long m = atol(spec.c_str() + pr + 1);
                Leaf l{0, 8, 0, 1};
                for (long k = 0; k < m; k++) {
                    char ch = (char)x.E.cval(x.E.loadLeaf(p + k, l), "printf");
                    if (!ch) break;
                    s += ch;
                }
                std::string sp = spec.substr(0, pr);
                snprintf(buf, sizeof buf, (sp + "s").c_str(), s.c_str());
                out += buf;
            } else {
                s = x.E.cstr(p);
                if (spec == "%") out += s;
                else { std::vector<char> big(s.size() + 600); snprintf(big.data(), big.size(), (spec + "s").c_str(), s.c_str()); out += big.data(); }
            }
        } else if (c == 'p') {
            next();
            out += "ptr";
        }
    }
    return out;
}
static int x_snprintf(ExtCall &x) {
    uint64_t b = x.u(0), n = x.u(1);
    std::string s = fmtPrintf(x, x.E.cstr(x.u(2)), 3);
    if (n) {
        std::string t = s.substr(0, n - 1);
        x.E.writeBytes(b, t.size() + 1, (const uint8_t *)t.c_str(), {});
    }
    RET(C_((uint32_t)s.size()));
}
static int x_sprintf(ExtCall &x) {
    uint64_t b = x.u(0);
    std::string s = fmtPrintf(x, x.E.cstr(x.u(1)), 2);
    x.E.writeBytes(b, s.size() + 1, (const uint8_t *)s.c_str(), {});
    RET(C_((uint32_t)s.size()));
}
static int x_printf(ExtCall &x) {
    std::string s = fmtPrintf(x, x.E.cstr(x.u(0)), 1);
    if (g_printOut) fwrite(s.data(), 1, s.size(), stderr);
    RET(C_((uint32_t)s.size()));
}
static int x_fprintf(ExtCall &x) {
    std::string s = fmtPrintf(x, x.E.cstr(x.u(1)), 2);
    if (g_printOut) fwrite(s.data(), 1, s.size(), stderr);
    RET(C_((uint32_t)s.size()));
}
static int x_puts(ExtCall &x) {
    std::string s = x.E.cstr(x.u(0));
    if (g_printOut) fprintf(stderr, "%s\n", s.c_str());
    RET(C_(1));
}
static int x_stdout(ExtCall &x) {
    uint64_t n = x.u(1);
    std::vector<uint8_t> b(n + 1);
    std::vector<uint32_t> sy;
    x.E.readBytes(x.u(0), n, b.data(), sy);
    if (!sy.empty()) for (size_t i = 0; i < n; i++) if (sy[i]) b[i] = '?';
    if (g_printOut) fwrite(b.data(), 1, n, stderr);
    return X_OK;
}
static int x_sscanf(ExtCall &x) {
    std::string s = x.E.cstr(x.u(0)), f = x.E.cstr(x.u(1));
    struct A { char c; std::string len; };
    std::vector<A> as;
    for (size_t i = 0; i < f.size(); i++)
        if (f[i] == '%') {
            size_t j = i + 1;
            std::string len;
            bool skip = false;
            while (j < f.size() && (isdigit(f[j]) || f[j] == '*')) { skip |= f[j] == '*'; j++; }
            while (j < f.size() && strchr("hlLz", f[j])) len += f[j++];
            if (f[j] != '%' && !skip) as.push_back({f[j], len});
            i = j;
        }
    char buf[8][512];
    memset(buf, 0, sizeof buf);
    int r = sscanf(s.c_str(), f.c_str(), buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
    for (int i = 0; i < r && i < (int)as.size(); i++) {
        int sz = as[i].c == 's' ? (int)strlen(buf[i]) + 1 : as[i].c == 'c' ? 1 : as[i].len.empty() ? 4 : as[i].len == "h" ? 2 : 8;
        x.E.writeBytes(x.u(2 + i), sz, (uint8_t *)buf[i], {});
    }
    RET(C_((uint32_t)r));
}
static int x_scan_num(ExtCall &x) {
    std::string s = x.E.cstr(x.u(0));
    int kind = (int)x.u(2);
    uint64_t out = x.u(3);
    const char *p = s.c_str();
    char *e = nullptr;
    uint64_t v = 0;
    int sz = 0;
    errno = 0;
    if (kind <= 2) {
        long l = strtol(p, &e, 10);
        if (kind == 0 && (l > SHRT_MAX || l < SHRT_MIN)) RET(C_(0));
        if (kind == 1 && (l > INT_MAX || l < INT_MIN)) RET(C_(0));
        v = (uint64_t)l;
        sz = kind == 0 ? 2 : kind == 1 ? 4 : 8;
    } else if (kind <= 5) {
        unsigned long l = strtoul(p, &e, 10);
        v = l;
        sz = kind == 3 ? 2 : kind == 4 ? 4 : 8;
    } else { // what num_get collects: decimal notation, and an exponent without digits is an error
        s = s.substr(0, s.find_first_not_of("+-0123456789.eE"));
        p = s.c_str();
        if (kind == 6) v = fbits(strtof(p, &e)), sz = 4;
        else v = dbits(strtod(p, &e)), sz = 8;
        if (*e == 'e' || *e == 'E') RET(C_(0));
    }
    if (e == p || errno) RET(C_(0));
    x.E.writeBytes(out, sz, (uint8_t *)&v, {});
    RET(C_((uint32_t)(e - p)));
}
static int x_strtol(ExtCall &x) {
    uint64_t a = x.u(0);
    std::string s = x.E.cstr(a);
    char *e;
    int base = (int)x.u(2);
    uint64_t v = x.name.find("ul") != std::string::npos ? strtoul(s.c_str(), &e, base) : (uint64_t)strtol(s.c_str(), &e, base);
    if (x.u(1)) x.E.storeLeaf(x.u(1), Leaf{0, 64, 2, 8}, C_(a + (e - s.c_str())));
    RET(C_(v));
}
static int x_strtod(ExtCall &x) {
    uint64_t a = x.u(0);
    std::string s = x.E.cstr(a);
    char *e;
    double d = strtod(s.c_str(), &e);
    if (x.u(1)) x.E.storeLeaf(x.u(1), Leaf{0, 64, 2, 8}, C_(a + (e - s.c_str())));
    if (x.name.find("strtof") != std::string::npos) RET(C_(fbits((float)d)));
    RET(C_(dbits(d)));
}
static int x_atoi(ExtCall &x) { RET(C_((uint32_t)atoi(x.E.cstr(x.u(0)).c_str()))); }
static int x_atof(ExtCall &x) { RET(C_(dbits(atof(x.E.cstr(x.u(0)).c_str())))); }
static int x_isx(ExtCall &x) {
    if (x.a[0].e && x.name[0] == 'i') {
        Expr *e = x.E.expr(x.a[0], 32, 0);
        auto in = [&](int lo, int hi) { return mkCmp(O_ULE, mkBin(O_SUB, e, mkConst(lo, 32)), mkConst(hi - lo, 32)); };
        Expr *r = mkConst(0, 1);
        if (x.name == "isspace") r = mkOr(in(' ', ' '), in('\t', '\r'));
        else {
            if (x.name != "isalpha") r = in('0', '9');
            if (x.name != "isdigit") r = mkOr(r, mkOr(in('a', 'z'), in('A', 'Z')));
        }
        x.ret[0] = x.E.fromExpr(mkZext(r, 32));
        return X_OK;
    }
    int c = (int)x.u(0), r = 0;
    if (x.name == "isspace") r = isspace(c) != 0;
    else if (x.name == "isdigit") r = isdigit(c) != 0;
    else if (x.name == "isalpha") r = isalpha(c) != 0;
    else if (x.name == "isalnum") r = isalnum(c) != 0;
    else if (x.name == "tolower") r = tolower(c);
    else if (x.name == "toupper") r = toupper(c);
    RET(C_((uint32_t)r));
}
static int x_errno(ExtCall &x) {
    auto &c = x.E.S->counters["errno" + std::to_string(x.P.rank)];
    if (!c) c = (long)x.E.alloc(8, true, 0);
    RET(C_((uint64_t)c));
}
static int x_clock(ExtCall &x) {
    long t = ++x.E.S->counters["clock"];
    RET(C_(dbits(1000.0 + t * 1e-3)));
}
static int x_time(ExtCall &x) {
    if (x.u(0)) x.E.storeLeaf(x.u(0), Leaf{0, 64, 0, 8}, C_(1700000000));
    RET(C_(1700000000));
}
static int x_gettimeofday(ExtCall &x) {
    long t = ++x.E.S->counters["clock"];
    x.E.storeLeaf(x.u(0), Leaf{0, 64, 0, 8}, C_(1700000000 + t / 1000));
    x.E.storeLeaf(x.u(0), Leaf{8, 64, 0, 8}, C_((t % 1000) * 1000));
    RET(C_(0));
}
static int x_clock_gettime(ExtCall &x) {
    long t = ++x.E.S->counters["clock"];
    x.E.storeLeaf(x.u(1), Leaf{0, 64, 0, 8}, C_(1700000000 + t / 1000));
    x.E.storeLeaf(x.u(1), Leaf{8, 64, 0, 8}, C_((t % 1000) * 1000000));
    RET(C_(0));
}
static int x_chrono_now(ExtCall &x) {
    long t = ++x.E.S->counters["clock"];
    RET(C_(1700000000000000000ULL + t * 1000000));
}
static int x_localtime(ExtCall &x) {
    auto &c = x.E.S->counters["tm" + std::to_string(x.P.rank)];
    if (!c) c = (long)x.E.alloc(64, true, 0);
    RET(C_((uint64_t)c));
}
static int x_strftime(ExtCall &x) {
    x.E.writeBytes(x.u(0), 5, (const uint8_t *)"TIME", {});
    RET(C_(4));
}

// ------------------------------------------------------------- process
static int x_exit(ExtCall &x) {
    int code = (int)x.u(0);
    if (code == 0 && (x.E.S->allowExit || x.E.S->allowFinish)) {
        x.P.exited = true;
        return X_NORETURN;
    }
    if (x.E.S->allowExit) throw Abort{"exit-ok", "", false};
    throw Abort{"exit", "the program terminates with code " + std::to_string(code), true};
}
static int x_hsexit(ExtCall &x) {
    if (x.E.S->allowExit) throw Abort{"exit-ok", "", false};
    throw Abort{"exit", "the program aborts (MPI_Abort) with code " + std::to_string((int)x.u(0)), true};
}
static int x_abort(ExtCall &x) {
    if (x.E.S->allowExit) throw Abort{"exit-ok", "", false};
    std::string m = "abort()";
    if (x.name == "__assert_fail") m = "assertion failed: " + x.E.cstr(x.u(0));
    throw Abort{"abort", m, true};
}
static int x_fail(ExtCall &x) {
    std::string k = x.E.cstr(x.u(0)), m = x.E.cstr(x.u(1));
    if (k == "mpi-model") throw Abort{"engine", m, false};
    if (k == "exception" && x.E.S->allowExit) throw Abort{"exit-ok", "", false};
    throw Abort{k, m, true};
}
static int x_pureviolation(ExtCall &x) { throw Abort{"abort", "pure virtual call", true}; }

// ------------------------------------------------------------- channels
static std::vector<long> chanKey(ExtCall &x) { return {(long)x.u(0), (long)x.u(1), (long)x.u(2), (long)x.u(3)}; }
static int x_send(ExtCall &x) {
    Chan &c = x.E.S->chans[chanKey(x)];
    auto m = std::make_shared<Msg>();
    uint64_t n = x.u(5);
    m->b.resize(n + 1);
    x.E.readBytes(x.u(4), n, m->b.data(), m->sym);
    m->b.resize(n);
    c.msgs.push_back(m);
    RET(C_(c.msgs.size() - 1));
}
static int x_post(ExtCall &x) {
    Chan &c = x.E.S->chans[chanKey(x)];
    RET(C_(c.posted++));
}
static int x_recv(ExtCall &x) {
    auto key = chanKey(x);
    Chan &c = x.E.S->chans[key];
    uint64_t t = x.u(4);
    if (c.msgs.size() <= t) {
        x.P.blockedOn = x.E.cstr(x.u(7)) + " from rank " + std::to_string(key[1]) + " tag " + std::to_string(key[3]);
        return X_BLOCK;
    }
    auto m = c.msgs[t];
    c.got++;
    if (m->b.size() > x.u(6)) throw Abort{"mpi-truncate", "message of " + std::to_string(m->b.size()) + " bytes received into a buffer of " + std::to_string(x.u(6)) + " bytes", true};
    x.E.writeBytes(x.u(5), m->b.size(), m->b.data(), m->sym);
    if (key[0] < 0) c.msgs[t] = nullptr;
    RET(C_(m->b.size()));
}
static int x_sync(ExtCall &x) {
    auto key = chanKey(x);
    Chan &c = x.E.S->chans[key];
    if (c.posted <= x.u(4)) {
        x.P.blockedOn = x.E.cstr(x.u(5)) + " to rank " + std::to_string(key[2]) + " tag " + std::to_string(key[3]);
        return X_BLOCK;
    }
    return X_OK;
}
static int x_pend(ExtCall &x) {
    uint64_t a = x.u(0), n = x.u(1);
    Watch w;
    w.rank = x.P.rank;
    w.mode = (int)x.u(2);
    w.live = n > 0;
    w.obj = a >> 32;
    w.off = (uint32_t)a - (uint32_t)OBJ_BIAS;
    w.len = (uint32_t)n;
    if (n) {
        uint32_t off;
        // overlapping pending operations
        for (auto &o : x.E.S->watches)
            if (o.live && o.obj == w.obj && w.off < o.off + o.len && o.off < w.off + w.len && (w.mode == 2 || o.mode == 2))
                throw Abort{"mpi-buffer", "the buffers of two pending MPI operations overlap", true};
        // the receive buffer must be valid memory
        auto sv = x.E.S->watches;
        Obj *o = x.E.objAt(a, n, false, off);
        if (o->rc > 1) {
            ObjRef &r = x.E.S->mem.slot(w.obj);
            if (r.p->rc > 1) r = ObjRef(r.p->clone());
            o = r.p;
        }
        o->watched = true;
    }
    x.E.S->watches.push_back(w);
    RET(C_(x.E.S->watches.size() - 1));
}
static int x_unpend(ExtCall &x) {
    x.E.S->watches[x.u(0)].live = false;
    // trim
    auto &W = x.E.S->watches;
    bool any = false;
    for (auto &w : W) any |= w.live;
    (void)any;
    return X_OK;
}

// ------------------------------------------------------------- files
static int x_fopen(ExtCall &x) {
    std::string n = x.E.cstr(x.u(0));
    int m = (int)x.u(1);
    auto &F = x.E.S->files;
    if (m & 2) F[n] = std::make_shared<SFile>();
    else if (m & 4) { if (!F.count(n)) F[n] = std::make_shared<SFile>(); }
    else if (!F.count(n)) RET(C_(0));
    RET(C_(1));
}
static int x_fsize(ExtCall &x) {
    auto it = x.E.S->files.find(x.E.cstr(x.u(0)));
    RET(C_(it == x.E.S->files.end() ? 0 : it->second->b.size()));
}
static int x_fexists(ExtCall &x) { RET(C_(x.E.S->files.count(x.E.cstr(x.u(0))))); }
static int x_fremove(ExtCall &x) { RET(C_(x.E.S->files.erase(x.E.cstr(x.u(0))))); }
static int x_frename(ExtCall &x) {
    auto &F = x.E.S->files;
    std::string a = x.E.cstr(x.u(0)), b = x.E.cstr(x.u(1));
    if (!F.count(a)) RET(C_((uint32_t)-1));
    F[b] = F[a];
    F.erase(a);
    RET(C_(0));
}
static int x_fread(ExtCall &x) {
    auto it = x.E.S->files.find(x.E.cstr(x.u(0)));
    if (it == x.E.S->files.end()) RET(C_(0));
    SFile &f = *it->second;
    uint64_t pos = x.u(1), n = x.u(3);
    if (pos >= f.b.size()) RET(C_(0));
    n = std::min<uint64_t>(n, f.b.size() - pos);
    std::vector<uint32_t> sy(f.sym.begin() + pos, f.sym.begin() + pos + n);
    x.E.writeBytes(x.u(2), n, f.b.data() + pos, sy);
    RET(C_(n));
}
static int x_fwrite(ExtCall &x) {
    auto it = x.E.S->files.find(x.E.cstr(x.u(0)));
    if (it == x.E.S->files.end()) RET(C_(0));
    if (it->second.use_count() > 1) it->second = std::make_shared<SFile>(*it->second);
    SFile &f = *it->second;
    uint64_t pos = x.u(1), n = x.u(3);
    std::vector<uint8_t> b(n + 1);
    std::vector<uint32_t> sy;
    x.E.readBytes(x.u(2), n, b.data(), sy);
    if (f.b.size() < pos + n) { f.b.resize(pos + n, 0); f.sym.resize(pos + n, 0); }
    memcpy(f.b.data() + pos, b.data(), n);
    for (uint64_t i = 0; i < n; i++) f.sym[pos + i] = sy.empty() ? 0 : sy[i];
    RET(C_(n));
}

// ------------------------------------------------------------- harness
std::map<std::pair<std::string, long>, std::string> g_fixed;
bool g_replay = false;
static Expr *mkSymF(ExtCall &x, int w) {
    std::string n = x.E.cstr(x.u(0)) + (w == 32 ? "#f" : "");
    Expr *s = mkSym(n, (long)x.u(1), S_FP, w);
    double lo = bitsd(x.u(2)), hi = bitsd(x.u(3));
    if (g_replay) {
        auto it = g_fixed.find({n, (long)x.u(1)});
        double v = it == g_fixed.end() ? 0 : strtod(it->second.c_str(), nullptr);
        if (it == g_fixed.end() && lo <= hi) v = v < lo ? lo : v > hi ? hi : v;
        return mkConst(bitsOfF(v, w), w, S_FP);
    }
    if (lo <= hi) {
        x.E.addPc(mkFcmp(O_FLE, mkConst(bitsOfF(lo, w), w, S_FP), s));
        x.E.addPc(mkFcmp(O_FLE, s, mkConst(bitsOfF(hi, w), w, S_FP)));
    }
    return s;
}
static int h_f64(ExtCall &x) { RET(x.E.fromExpr(mkSymF(x, 64))); }
static int h_f32(ExtCall &x) { RET(x.E.fromExpr(mkSymF(x, 32))); }
static Val symInt(ExtCall &x) {
    long lo = (long)x.u(2), hi = (long)x.u(3);
    if (lo == hi) return C_((uint64_t)lo);
    std::string n = x.E.cstr(x.u(0)) + "#i";
    if (g_replay) {
        auto it = g_fixed.find({n, (long)x.u(1)});
        return C_((uint64_t)(it == g_fixed.end() ? (lo > 0 ? lo : hi < 0 ? hi : 0) : strtol(it->second.c_str(), nullptr, 10)));
    }
    Expr *s = mkSym(n, (long)x.u(1), S_BV, 64);
    x.E.addPc(mkCmp(O_SLE, mkConst((uint64_t)lo, 64), s));
    x.E.addPc(mkCmp(O_SLE, s, mkConst((uint64_t)hi, 64)));
    return x.E.fromExpr(s);
}
static int h_int(ExtCall &x) { RET(symInt(x)); }
static int h_choose(ExtCall &x) {
    Val v = symInt(x);
    RET(C_(x.E.cval(v, "choice")));
}
static int h_assume(ExtCall &x) {
    Val v = x.a[0];
    if (!v.e) {
        if (!v.c) throw Abort{"infeasible", "", false};
        return X_OK;
    }
    x.E.flushChecks();
    Expr *c = mkNot(mkCmp(O_EQ, x.E.expr(v, 32, 0), mkConst(0, 32)));
    if (!x.E.feasible(c)) throw Abort{"infeasible", "", false};
    x.E.addPc(c);
    return X_OK;
}
static int h_check(ExtCall &x) {
    Expr *c = mkNot(mkCmp(O_EQ, x.E.expr(x.a[0], 32, 0), mkConst(0, 32)));
    x.E.check(c, x.E.cstr(x.u(1)));
    return X_OK;
}
static std::string showVal(const Val &v, int w) {
    if (v.e) return showExpr(v.e, 4);
    char b[64];
    snprintf(b, 64, "%.17g", w == 64 ? bitsd(v.c) : (double)bitsf(v.c));
    return b;
}
static int eqf(ExtCall &x, int w, bool strict) {
    Val a = x.a[0], b = x.a[1];
    std::string m = x.E.cstr(x.u(2));
    if (!a.e && !b.e) {
        double p = w == 64 ? bitsd(a.c) : bitsf(a.c), q = w == 64 ? bitsd(b.c) : bitsf(b.c);
        bool ok;
        double tol = w == 64 ? 1e-9 : 1e-4;
        if (strict || g_fpmode == FP_IEEE) ok = a.c == b.c || (std::isnan(p) && std::isnan(q)) || (!strict && p == q);
        else ok = fabs(p - q) <= tol * (1 + fabs(p) + fabs(q)) || (std::isnan(p) && std::isnan(q)) || p == q;
        x.E.check(mkConst(ok, 1), m + ": " + showVal(a, w) + " vs " + showVal(b, w));
        return X_OK;
    }
    Expr *p = x.E.expr(a, w, 1), *q = x.E.expr(b, w, 1);
    if (p == q) { st.checks++; st.checksIdentical++; x.E.S->ident.push_back(p); return X_OK; }
    Expr *eq = g_fpmode == FP_IEEE ? mkOr(mkCmp(O_EQ, mkBits(p), mkBits(q)), mkOr(mkFcmp(O_FEQ, p, q), mkAnd(mkFcmp(O_FUNO, p, p), mkFcmp(O_FUNO, q, q)))) : mkFcmp(O_FEQ, p, q);
    Expr *weak = nullptr;
    if (g_fpmode == FP_REAL && !strict) {
        Expr *d = mkF2(O_FSUB, p, q), *t = mkConst(bitsOfF(w == 64 ? 1e-6 : 1e-3, w), w, S_FP);
        weak = mkAnd(mkFcmp(O_FLE, d, t), mkFcmp(O_FLE, mkF1(O_FNEG, t), d));
    }
    x.E.check(eq, m + ": " + showVal(a, w) + " vs " + showVal(b, w), weak);
    return X_OK;
}
static int h_eqf64(ExtCall &x) { return eqf(x, 64, false); }
static int h_eqf32(ExtCall &x) { return eqf(x, 32, false); }
static int h_samef64(ExtCall &x) { return eqf(x, 64, true); }
static int h_lef64(ExtCall &x) {
    Expr *p = x.E.expr(x.a[0], 64, 1), *q = x.E.expr(x.a[1], 64, 1);
    x.E.check(mkFcmp(O_FLE, p, q), x.E.cstr(x.u(2)) + ": " + showVal(x.a[0], 64) + " vs " + showVal(x.a[1], 64));
    return X_OK;
}
static int h_eqi64(ExtCall &x) {
    Expr *p = x.E.expr(x.a[0], 64, 0), *q = x.E.expr(x.a[1], 64, 0);
    if (p == q && !p->isConst()) { st.checks++; st.checksIdentical++; x.E.S->ident.push_back(p); return X_OK; }
    std::string m = x.E.cstr(x.u(2));
    auto sh = [](const Val &v) { return v.e ? showExpr(v.e, 4) : std::to_string((long)v.c); };
    x.E.check(mkCmp(O_EQ, p, q), m + ": " + sh(x.a[0]) + " vs " + sh(x.a[1]));
    return X_OK;
}
static int h_reach(ExtCall &x) {
    x.E.S->reached.insert(x.E.cstr(x.u(0)));
    return X_OK;
}
static int h_rank(ExtCall &x) { RET(C_((uint32_t)x.P.rank)); }
static int h_nranks(ExtCall &x) { RET(C_((uint32_t)opt.nranks)); }
// the derivative of an expression by a symbol
struct Differ {
    Expr *x;
    std::unordered_map<Expr *, Expr *> memo; // null: zero
    static Expr *k(double v, int w) { return mkConst(bitsOfF(v, w), w, S_FP); }
    static Expr *add(Expr *a, Expr *b) { return !a ? b : !b ? a : mkF2(O_FADD, a, b); }
    static Expr *neg(Expr *a) { return a ? mkF1(O_FNEG, a) : nullptr; }
    static Expr *mul(Expr *a, Expr *b) { return !a ? nullptr : mkF2(O_FMUL, a, b); }
    static Expr *div(Expr *a, Expr *b) { return !a ? nullptr : mkF2(O_FDIV, a, b); }
    Expr *operator()(Expr *e) {
        if (e == x) return k(1, e->width);
        if (e->isConst() || e->op == O_SYM) return nullptr;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Expr *r = make(e);
        memo[e] = r;
        return r;
    }
    Expr *make(Expr *e) {
        Expr *a = e->nk > 0 ? e->k[0] : nullptr, *b = e->nk > 1 ? e->k[1] : nullptr;
        int w = e->width;
        switch (e->op) {
        case O_FADD: return add((*this)(a), (*this)(b));
        case O_FSUB: return add((*this)(a), neg((*this)(b)));
        case O_FMUL: return add(mul((*this)(a), b), mul((*this)(b), a));
        case O_FDIV: return add(div((*this)(a), b), neg(div(mul((*this)(b), a), mkF2(O_FMUL, b, b))));
        case O_FNEG: return neg((*this)(a));
        case O_FMA: return add(add(mul((*this)(a), b), mul((*this)(b), a)), (*this)(e->k[2]));
        case O_FSQRT: return div((*this)(a), mkF2(O_FMUL, k(2, w), e));
        case O_FABS: return mul((*this)(a), mkF2(O_FDIV, a, e));
        case O_FPCONV: { Expr *d = (*this)(a); return d ? mkFPConv(d, w) : nullptr; }
        case O_ITE: {
            Expr *p = (*this)(e->k[1]), *q = (*this)(e->k[2]);
            if (!p && !q) return nullptr;
            return mkIte(e->k[0], p ? p : k(0, w), q ? q : k(0, w));
        }
        case O_UF: {
            const std::string &n = g_ufs[e->aux];
            Expr *d = (*this)(a), *d2 = b ? (*this)(b) : nullptr;
            if (!d && !d2) return nullptr;
            if (n == "sin") return mul(d, mkUF("cos", {a}, w));
            if (n == "cos") return neg(mul(d, mkUF("sin", {a}, w)));
            if (n == "exp") return mul(d, e);
            if (n == "log") return div(d, a);
            if (n == "atan2") return div(add(mul(d, b), neg(mul(d2, a))), mkF2(O_FADD, mkF2(O_FMUL, a, a), mkF2(O_FMUL, b, b)));
            if (n == "acos") return neg(div(d, mkF1(O_FSQRT, mkF2(O_FSUB, k(1, w), mkF2(O_FMUL, a, a)))));
            throw Abort{"engine", "derivative of " + n, false};
        }
        default:
            for (uint32_t i = 0; i < e->nk; i++)
                if ((*this)(e->k[i])) throw Abort{"engine", "derivative of an operation that is not differentiable", false};
            return nullptr;
        }
    }
};
static int h_diff(ExtCall &x) {
    Expr *f = x.E.expr(x.a[0], 64, 1), *s = x.E.expr(x.a[1], 64, 1);
    if (s->op != O_SYM) throw Abort{"engine", "derivative by something that is not a symbol", false};
    Differ d;
    d.x = s;
    Expr *r = d(f);
    RET(x.E.fromExpr(r ? r : Differ::k(0, 64)));
}
static int h_symbolic(ExtCall &x) { RET(C_(1)); }
static int h_allowfinish(ExtCall &x) { x.E.S->allowFinish = x.u(0) != 0; return X_OK; }
static int h_allowexit(ExtCall &x) { x.E.S->allowExit = true; return X_OK; }
static int h_trace(ExtCall &x) {
    fprintf(stderr, "trace rank %d: %s %s\n", x.P.rank, x.E.cstr(x.u(0)).c_str(), x.a[1].e ? showExpr(x.a[1].e).c_str() : std::to_string((long)x.a[1].c).c_str());
    return X_OK;
}
static int h_param(ExtCall &x) {
    std::string n = x.E.cstr(x.u(0));
    auto it = g_params.find(n);
    if (it == g_params.end()) RET(C_(x.u(1)));
    uint64_t a = x.E.alloc(it->second.size() + 1, true);
    x.E.writeBytes(a, it->second.size() + 1, (const uint8_t *)it->second.c_str(), {});
    RET(C_(a));
}
static int h_parami(ExtCall &x) {
    std::string n = x.E.cstr(x.u(0));
    auto it = g_params.find(n);
    RET(C_(it == g_params.end() ? x.u(1) : (uint64_t)atol(it->second.c_str())));
}

// ------------------------------------------------------------- OpenMP (sequentialised, with access tracking)
static int k_fork(ExtCall &x) {
    // __kmpc_fork_call(loc, argc, microtask, ...)
    uint64_t argc = x.u(1);
    const Function *f = x.E.fnAt(x.u(2));
    if (!f) throw Abort{"engine", "fork_call target", false};
    DFunc *df = x.E.decode(f);
    std::vector<Val> rest(x.a.begin() + 3, x.a.end());
    (void)argc;
    Proc &P = x.P;
    P.st.back().pc++;
    if (x.ci.contEdge >= 0) throw Abort{"engine", "invoke of fork_call", false};
    int nt = opt.ompThreads;
    if (x.E.S->omp.on) nt = 1; // nested
    static const bool rev = g_params.count("omprev") && atol(g_params["omprev"].c_str());
    if (nt > 4) throw Abort{"engine", "more than 4 OpenMP threads", false};
    for (int k = nt - 1; k >= 0; k--) {
        int t = rev ? nt - 1 - k : k;
        std::vector<Val> args;
        uint64_t g = x.E.alloc(8, false, 0), b = x.E.alloc(8, false, 0);
        x.E.storeLeaf(g, Leaf{0, 32, 0, 4}, C_(t));
        x.E.storeLeaf(b, Leaf{0, 32, 0, 4}, C_(t));
        args.push_back(C_(g));
        args.push_back(C_(b));
        for (auto &v : rest) args.push_back(v);
        CallInfo ci;
        for (size_t i = 0; i < args.size(); i++) ci.nleaf.push_back(1);
        x.E.pushCall(P, df, ci, args);
        if (nt > 1) P.st.back().tid = t;
    }
    if (nt > 1) {
        x.E.S->omp.on = true;
        x.E.S->omp.tid = rev ? nt - 1 : 0;
        x.E.S->omp.epoch = 0;
        x.E.S->omp.acc.clear();
    }
    return X_PUSHED;
}
static int k_static_init(ExtCall &x) {
    // (loc, gtid, sched, plastiter, plower, pupper, pstride, incr, chunk)
    bool w8 = x.name.find("_8") != std::string::npos;
    bool uns = x.name.back() == 'u';
    (void)uns;
    uint16_t bits = w8 ? 64 : 32;
    Leaf l{0, bits, 0, (uint8_t)(bits / 8)};
    auto rd = [&](uint64_t p) -> long {
        uint64_t v = x.E.cval(x.E.loadLeaf(p, l), "omp bounds");
        return w8 ? (long)v : (long)(int)v;
    };
    int sched = (int)x.u(2);
    uint64_t pl = x.u(4), pu = x.u(5), ps = x.u(6);
    long incr = (long)x.u(7), chunk = (long)x.u(8);
    if (!w8) { incr = (int)incr; chunk = (int)chunk; }
    int nt = x.E.S->omp.on ? opt.ompThreads : 1, t = x.E.S->omp.on ? x.E.S->omp.tid : 0;
    bool svo = x.E.S->omp.on;
    x.E.S->omp.on = false;
    long lo = rd(pl), hi = rd(pu);
    long trip = incr > 0 ? (hi < lo ? 0 : (hi - lo) / incr + 1) : (lo < hi ? 0 : (lo - hi) / (-incr) + 1);
    long nlo, nhi, stride, last = 0;
    if (sched == 34) { // static, no chunk
        long small = trip / nt, extra = trip % nt;
        long b = t * small + (t < extra ? t : extra), n = small + (t < extra ? 1 : 0);
        nlo = lo + b * incr;
        nhi = nlo + (n - 1) * incr;
        if (n == 0) { nlo = hi + incr; nhi = hi; }
        stride = trip * (incr > 0 ? incr : -incr);
        last = n > 0 && b + n == trip;
    } else { // 33 static chunked
        if (chunk < 1) chunk = 1;
        nlo = lo + t * chunk * incr;
        nhi = nlo + (chunk - 1) * incr;
        stride = chunk * incr * nt;
        last = trip > 0 && ((trip - 1) / chunk) % nt == t;
    }
    x.E.storeLeaf(x.u(3), Leaf{0, 32, 0, 4}, C_(last));
    x.E.storeLeaf(pl, l, C_((uint64_t)nlo & (w8 ? ~0ULL : 0xffffffffULL)));
    x.E.storeLeaf(pu, l, C_((uint64_t)nhi & (w8 ? ~0ULL : 0xffffffffULL)));
    x.E.storeLeaf(ps, l, C_((uint64_t)stride & (w8 ? ~0ULL : 0xffffffffULL)));
    x.E.S->omp.on = svo;
    return X_OK;
}
static int k_tid(ExtCall &x) { RET(C_((uint32_t)(x.E.S->omp.on ? x.E.S->omp.tid : 0))); }
static int k_nthreads(ExtCall &x) { RET(C_((uint32_t)(x.E.S->omp.on ? opt.ompThreads : 1))); }
static int k_maxthreads(ExtCall &x) { RET(C_((uint32_t)opt.ompThreads)); }
static int k_crit(ExtCall &x) { x.E.S->omp.inCrit++; return X_OK; }
static int k_endcrit(ExtCall &x) { x.E.S->omp.inCrit--; return X_OK; }
static int k_reduce(ExtCall &x) { x.E.S->omp.inCrit++; RET(C_(1)); }
static int k_barrier(ExtCall &x) {
    if (x.E.S->omp.on && ++x.E.S->omp.epoch > 250) throw Abort{"engine", "too many OpenMP barriers in a parallel region", false};
    return X_OK;
}
static int k_master(ExtCall &x) { RET(C_((uint32_t)(x.E.S->omp.tid == 0))); }

// ------------------------------------------------------------- x86 vector intrinsics
static int v_blendv(ExtCall &x) { // (a,b,mask): mask sign bit set -> b
    int n = lanes(x);
    auto &L = x.E.ti(x.ci.tys[2])->leaves;
    auto &R = x.E.ti(x.ci.retTy)->leaves;
    int w = L[0].bits;
    std::vector<Val> r;
    for (int i = 0; i < n; i++) {
        Val m = x.a[2 * n + i];
        Expr *me = x.E.expr(m, w, 0);
        Expr *c = mkExtract(me, w - 1, 1);
        if (c->isConst()) r.push_back(c->val ? x.a[n + i] : x.a[i]);
        else r.push_back(x.E.fromExpr(mkIte(c, x.E.expr(x.a[n + i], w, R[0].kind), x.E.expr(x.a[i], w, R[0].kind))));
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_movmsk(ExtCall &x) {
    auto &L = x.E.ti(x.ci.tys[0])->leaves;
    int w = L[0].bits, n = (int)L.size();
    Expr *r = mkConst(0, 32);
    for (int i = 0; i < n; i++) {
        Expr *s = mkZext(mkExtract(x.E.expr(x.a[i], w, 0), w - 1, 1), 32);
        r = mkBin(O_OR, r, mkBin(O_SHL, s, mkConst(i, 32)));
    }
    RET(x.E.fromExpr(r));
}
static int v_minmax(ExtCall &x) { // min: a<b ? a : b ; max: a>b ? a : b
    int n = lanes(x), w = widthOf(x);
    bool mx = x.name.find(".max") != std::string::npos;
    std::vector<Val> r;
    for (int i = 0; i < n; i++) {
        Expr *a = fx(x, i, w), *b = fx(x, n + i, w);
        r.push_back(x.E.fromExpr(mkIte(mx ? mkFcmp(O_FLT, b, a) : mkFcmp(O_FLT, a, b), a, b)));
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_round(ExtCall &x) {
    int n = lanes(x), w = widthOf(x);
    int m = (int)x.u(n) & 7;
    Op o = m == 0 || m == 4 ? O_FRINT : m == 1 ? O_FFLOOR : m == 2 ? O_FCEIL : O_FTRUNC;
    std::vector<Val> r;
    for (int i = 0; i < n; i++) r.push_back(x.E.fromExpr(mkF1(o, fx(x, i, w))));
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_cvttpd(ExtCall &x) { // cvttpd2dq / cvtpd2dq
    int n = lanes(x);
    auto &L = x.E.ti(x.ci.tys[0])->leaves;
    int w = L[0].bits;
    bool trunc = x.name.find("cvtt") != std::string::npos;
    std::vector<Val> r;
    for (int i = 0; i < n; i++) {
        if (i >= (int)L.size()) { r.push_back(C_(0)); continue; }
        Expr *v = fx(x, i, w);
        if (!trunc) v = mkF1(O_FRINT, v);
        r.push_back(x.E.fromExpr(mkFPToInt(v, widthOf(x), true)));
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_hadd(ExtCall &x) { // 128/256-bit horizontal add (per 128-bit lane)
    int n = lanes(x), w = widthOf(x), per = 128 / w;
    bool sub = x.name.find("hsub") != std::string::npos;
    std::vector<Val> r(n);
    for (int l = 0; l < n / per; l++)
        for (int i = 0; i < per; i++) {
            int src = i < per / 2 ? 0 : n;
            int k = l * per + 2 * (i % (per / 2));
            if (x.name.find(".ph") != std::string::npos) {
                r[l * per + i] = x.E.fromExpr(mkBin(sub ? O_SUB : O_ADD, x.E.expr(x.a[src + k], w, 0), x.E.expr(x.a[src + k + 1], w, 0)));
            } else
                r[l * per + i] = x.E.fromExpr(mkF2(sub ? O_FSUB : O_FADD, fx(x, src + k, w), fx(x, src + k + 1, w)));
        }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_addsub(ExtCall &x) {
    int n = lanes(x), w = widthOf(x);
    std::vector<Val> r(n);
    for (int i = 0; i < n; i++) r[i] = x.E.fromExpr(mkF2(i % 2 ? O_FADD : O_FSUB, fx(x, i, w), fx(x, n + i, w)));
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_permvar(ExtCall &x) { // permd / permps (a, idx)
    int n = lanes(x);
    std::vector<Val> r(n);
    for (int i = 0; i < n; i++) r[i] = x.a[x.E.cval(x.a[n + i], "permute") % n];
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_vpermilvar(ExtCall &x) {
    int n = lanes(x), w = widthOf(x), per = 128 / w;
    std::vector<Val> r(n);
    for (int i = 0; i < n; i++) {
        uint64_t k = x.E.cval(x.a[n + i], "permute");
        k = w == 64 ? (k >> 1) & 1 : k & 3;
        r[i] = x.a[(i / per) * per + k];
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int v_ptest(ExtCall &x) { // ptestc/z/nzc
    int n = (int)x.a.size() / 2;
    int w = x.E.ti(x.ci.tys[0])->leaves[0].bits;
    Expr *z = mkConst(1, 1), *c = mkConst(1, 1);
    bool sgn = x.name.find("vtest") != std::string::npos;
    for (int i = 0; i < n; i++) {
        Expr *a = x.E.expr(x.a[i], w, 0), *b = x.E.expr(x.a[n + i], w, 0);
        Expr *ab = mkBin(O_AND, a, b), *nb = mkBin(O_AND, mkBin(O_XOR, a, mkConst(maskw(w), w)), b);
        if (sgn) { ab = mkExtract(ab, w - 1, 1); nb = mkExtract(nb, w - 1, 1); }
        z = mkAnd(z, mkCmp(O_EQ, ab, mkConst(0, ab->width)));
        c = mkAnd(c, mkCmp(O_EQ, nb, mkConst(0, nb->width)));
    }
    Expr *r;
    if (x.name.find("nzc") != std::string::npos) r = mkAnd(mkNot(z), mkNot(c));
    else if (x.name.find("testz") != std::string::npos || x.name.find(".ptestz") != std::string::npos) r = z;
    else r = c;
    RET(x.E.fromExpr(mkZext(r, 32)));
}
static int v_gather(ExtCall &x) { // avx2.gather.*(src, base, idx, mask, scale)
    int n = lanes(x);
    auto &R = x.E.ti(x.ci.retTy)->leaves;
    auto &IX = x.E.ti(x.ci.tys[2])->leaves;
    int ni = (int)IX.size();
    uint64_t base = x.u(n);
    uint64_t scale = x.u(n + 1 + ni + n);
    std::vector<Val> r(n);
    for (int i = 0; i < n; i++) {
        Val m = x.a[n + 1 + ni + i];
        Expr *c = mkExtract(x.E.expr(m, R[0].bits, 0), R[0].bits - 1, 1);
        if (x.E.branch(c)) {
            long k = (long)x.E.cval(x.a[n + 1 + i], "gather index");
            if (IX[0].bits == 32) k = (int)k;
            Leaf l = R[0];
            l.off = 0;
            r[i] = x.E.loadLeaf(base + k * scale, l);
        } else
            r[i] = x.a[i];
    }
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int m_load(ExtCall &x) { // llvm.masked.load(ptr, align, mask, passthru)
    int n = lanes(x);
    auto &R = x.E.ti(x.ci.retTy)->leaves;
    uint64_t p = x.u(0);
    std::vector<Val> r(n);
    for (int i = 0; i < n; i++) r[i] = (x.E.cval(x.a[2 + i], "mask") & 1) ? x.E.loadLeaf(p, R[i]) : x.a[2 + n + i];
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}
static int m_store(ExtCall &x) { // llvm.masked.store(val, ptr, align, mask)
    auto &R = x.E.ti(x.ci.tys[0])->leaves;
    int n = (int)R.size();
    uint64_t p = x.u(n);
    for (int i = 0; i < n; i++) if (x.E.cval(x.a[n + 2 + i], "mask") & 1) x.E.storeLeaf(p, R[i], x.a[i]);
    return X_OK;
}
static int v_maskload(ExtCall &x) { // x86 maskload(ptr, mask)
    int n = lanes(x);
    auto &R = x.E.ti(x.ci.retTy)->leaves;
    uint64_t p = x.u(0);
    std::vector<Val> r(n);
    for (int i = 0; i < n; i++) r[i] = (x.E.cval(x.a[1 + i], "mask") >> (R[i].bits - 1)) & 1 ? x.E.loadLeaf(p, R[i]) : C_(0);
    for (int i = 0; i < n; i++) x.ret[i] = r[i];
    return X_OK;
}

static std::unordered_map<std::string, ExtFn> tab = {
    {"malloc", x_malloc}, {"calloc", x_calloc}, {"free", x_free}, {"realloc", x_realloc}, {"memalign", x_memalign}, {"aligned_alloc", x_memalign}, {"posix_memalign", x_posix_memalign},
    {"_mm_malloc", x_malloc}, {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset}, {"memcmp", x_memcmp}, {"bcmp", x_memcmp}, {"strlen", x_strlen}, {"strcmp", x_strcmp},
    {"strncmp", x_strncmp}, {"memchr", x_memchr}, {"strchr", x_strchr}, {"strcpy", x_strcpy}, {"strdup", x_strdup},
    {"snprintf", x_snprintf}, {"sprintf", x_sprintf}, {"printf", x_printf}, {"fprintf", x_fprintf}, {"puts", x_puts}, {"putchar", x_zero}, {"putc", x_zero}, {"fputs", x_zero}, {"fputc", x_zero}, {"fwrite", x_zero},
    {"fflush", x_zero}, {"__hs_stdout", x_stdout}, {"sscanf", x_sscanf}, {"__isoc99_sscanf", x_sscanf}, {"__isoc23_sscanf", x_sscanf}, {"__hs_scan_num", x_scan_num},
    {"strtol", x_strtol}, {"strtoul", x_strtol}, {"strtoll", x_strtol}, {"strtoull", x_strtol}, {"__isoc23_strtol", x_strtol}, {"__isoc23_strtoul", x_strtol}, {"__isoc23_strtoll", x_strtol}, {"__isoc23_strtoull", x_strtol},
    {"strtod", x_strtod}, {"strtof", x_strtod}, {"atoi", x_atoi}, {"atof", x_atof}, {"atol", x_atoi},
    {"isspace", x_isx}, {"isdigit", x_isx}, {"isalpha", x_isx}, {"isalnum", x_isx}, {"tolower", x_isx}, {"toupper", x_isx}, {"__errno_location", x_errno}, {"strerror", x_localtime},
    {"__hs_clock", x_clock}, {"time", x_time}, {"gettimeofday", x_gettimeofday}, {"clock_gettime", x_clock_gettime}, {"clock", x_zero}, {"localtime", x_localtime}, {"strftime", x_strftime},
    {"_ZNSt6chrono3_V212system_clock3nowEv", x_chrono_now}, {"_ZNSt6chrono3_V212steady_clock3nowEv", x_chrono_now},
    {"exit", x_exit}, {"_exit", x_exit}, {"_Exit", x_exit}, {"quick_exit", x_exit}, {"abort", x_abort}, {"__assert_fail", x_abort}, {"_ZSt9terminatev", x_abort}, {"__hs_exit", x_hsexit}, {"__hs_fail", x_fail},
    {"__cxa_pure_virtual", x_pureviolation}, {"__cxa_atexit", x_zero}, {"atexit", x_zero}, {"__cxa_guard_abort", x_nop}, {"__cxa_thread_atexit", x_zero}, {"signal", x_zero}, {"feenableexcept", x_zero}, {"feclearexcept", x_zero}, {"fesetround", x_zero}, {"fegetround", x_zero}, {"getenv", x_zero},
    {"getpid", x_zero}, {"srand", x_nop}, {"srand48", x_nop}, {"sleep", x_zero}, {"usleep", x_zero}, {"sync", x_nop}, {"system", x_zero}, {"chdir", x_zero}, {"mkdir", x_zero}, {"setvbuf", x_zero}, {"mallopt", x_zero}, {"popen", x_zero}, {"pclose", x_zero}, {"fgets", x_zero},
    {"__hs_send", x_send}, {"__hs_post", x_post}, {"__hs_recv", x_recv}, {"__hs_sync", x_sync}, {"__hs_pend", x_pend}, {"__hs_unpend", x_unpend},
    {"__hs_fopen", x_fopen}, {"__hs_fsize", x_fsize}, {"__hs_fexists", x_fexists}, {"__hs_fremove", x_fremove}, {"__hs_frename", x_frename}, {"__hs_fread", x_fread}, {"__hs_fwrite", x_fwrite}, {"__hs_csqrt", x_csqrt},
    {"hs_f64", h_f64}, {"hs_f32", h_f32}, {"hs_int", h_int}, {"hs_choose", h_choose}, {"hs_assume", h_assume}, {"hs_check", h_check}, {"hs_eq_f64", h_eqf64}, {"hs_eq_f32", h_eqf32}, {"hs_same_f64", h_samef64},
    {"hs_le_f64", h_lef64}, {"hs_eq_i64", h_eqi64}, {"hs_reach", h_reach}, {"hs_objsize", h_objsize}, {"hs_rank", h_rank}, {"hs_nranks", h_nranks}, {"hs_symbolic", h_symbolic}, {"hs_diff", h_diff}, {"hs_allow_exit", h_allowexit}, {"hs_allow_finish", h_allowfinish}, {"hs_trace", h_trace}, {"hs_param", h_param}, {"hs_parami", h_parami},
    {"__kmpc_fork_call", k_fork}, {"__kmpc_for_static_init_4", k_static_init}, {"__kmpc_for_static_init_8", k_static_init}, {"__kmpc_for_static_init_4u", k_static_init}, {"__kmpc_for_static_init_8u", k_static_init},
    {"__kmpc_for_static_fini", x_nop}, {"__kmpc_global_thread_num", k_tid}, {"omp_get_thread_num", k_tid}, {"omp_get_num_threads", k_nthreads}, {"omp_get_max_threads", k_maxthreads}, {"__kmpc_critical", k_crit}, {"__kmpc_end_critical", k_endcrit},
    {"__kmpc_reduce_nowait", k_reduce}, {"__kmpc_end_reduce_nowait", k_endcrit}, {"__kmpc_reduce", k_reduce}, {"__kmpc_end_reduce", k_endcrit}, {"__kmpc_barrier", k_barrier}, {"__kmpc_master", k_master}, {"__kmpc_end_master", x_nop},
    {"__kmpc_push_num_threads", x_nop}, {"omp_set_num_threads", x_nop}, {"omp_get_wtime", x_clock}, {"__kmpc_single", k_master}, {"__kmpc_end_single", x_nop},
    {"sincos", x_sincos}, {"sincosf", x_sincos}, {"lround", x_lround}, {"lrint", x_lround}, {"llround", x_lround}, {"lroundf", x_lround}, {"ldexp", x_ldexp}, {"ldexpf", x_ldexp}, {"scalbn", x_ldexp},
    {"abs", x_abs}, {"labs", x_abs}, {"llabs", x_abs},
};
static int x_guard(ExtCall &x) {
    uint64_t g = x.u(0);
    Leaf l{0, 8, 0, 1};
    uint64_t v = x.E.cval(x.E.loadLeaf(g, l), "guard");
    RET(C_(v ? 0 : 1));
}
static int x_guard_rel(ExtCall &x) {
    x.E.storeLeaf(x.u(0), Leaf{0, 8, 0, 1}, C_(1));
    return X_OK;
}
static int x_expect(ExtCall &x) { RET(x.a[0]); }
static int x_objsize(ExtCall &x) { RET(C_(~0ULL)); }
static int x_const0(ExtCall &x) { RET(C_(0)); }
static int x_stacksave(ExtCall &x) { RET(C_(0)); }

ExtFn lookupExt(const std::string &n, const Function *F) {
    auto it = tab.find(n);
    if (it != tab.end()) return it->second;
    if (F && !F->isDeclaration()) return nullptr;
    if (n == "__cxa_guard_acquire") return x_guard;
    if (n == "__cxa_guard_release") return x_guard_rel;
    std::string m = mathName(n);
    if (starts(n, "llvm.")) {
        if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) return x_memcpy;
        if (starts(n, "llvm.memset")) return x_memset;
        if (m == "fma" || m == "fmuladd") return x_fma;
        if (m == "smax" || m == "smin" || m == "umax" || m == "umin") return x_minmax;
        if (m == "abs") return x_abs;
        if (starts(n, "llvm.vector.reduce")) return x_vreduce;
        if (n.find(".with.overflow.") != std::string::npos) return x_overflow;
        if (m == "ctpop" || m == "ctlz" || m == "cttz" || m == "bswap" || m == "bitreverse") return x_bits;
        if (m == "fshl" || m == "fshr") return x_funnel;
        if (m == "usub" || m == "uadd") return x_sat;
        if (m == "expect") return x_expect;
        if (m == "objectsize") return x_objsize;
        if (n == "llvm.stacksave" || n == "llvm.stacksave.p0") return x_stacksave;
        if (starts(n, "llvm.stackrestore") || m == "donothing" || m == "sideeffect") return x_nop;
        if (starts(n, "llvm.is.constant")) return x_const0;
        if (starts(n, "llvm.is.fpclass")) return x_isfpclass;
        if (m == "powi") return x_powi;
        if (m == "ldexp") return x_ldexp;
        if (m == "lround" || m == "llround" || m == "lrint" || m == "llrint") return x_lround;
        if (m == "maxnum" || m == "minnum" || m == "maximum" || m == "minimum" || m == "copysign" || m == "pow") return x_math2;
        if (m == "sqrt" || m == "fabs" || m == "floor" || m == "ceil" || m == "trunc" || m == "rint" || m == "nearbyint" || m == "round" || m == "roundeven" || d1.count(m)) return x_math1;
        if (m == "trap" || n == "llvm.ubsantrap") return x_abort;
        if (starts(n, "llvm.masked.load")) return m_load;
        if (starts(n, "llvm.masked.store")) return m_store;
        if (starts(n, "llvm.x86.")) {
            if (n.find("blendv") != std::string::npos) return v_blendv;
            if (n.find("movmsk") != std::string::npos) return v_movmsk;
            if (n.find(".round.") != std::string::npos) return v_round;
            if (n.find(".cvt") != std::string::npos) return v_cvttpd;
            if (n.find(".sw") == std::string::npos && n.find("hadd") != std::string::npos || n.find("hsub") != std::string::npos) return v_hadd;
            if (n.find(".addsub") != std::string::npos) return v_addsub;
            if (n.find(".permd") != std::string::npos || n.find(".permps") != std::string::npos) return v_permvar;
            if (n.find(".vpermilvar") != std::string::npos) return v_vpermilvar;
            if (n.find(".gather.") != std::string::npos) return v_gather;
            if (n.find("test") != std::string::npos) return v_ptest;
            if (n.find("maskload") != std::string::npos) return v_maskload;
            if (n.find(".min.") != std::string::npos || n.find(".max.") != std::string::npos) return v_minmax;
        }
        return nullptr;
    }
    if (F && F->getReturnType()->isFloatingPointTy()) {
        int w = F->getReturnType()->getPrimitiveSizeInBits();
        std::string b = baseName(n, w);
        if (d1.count(b) || b == "sqrt" || b == "fabs" || b == "floor" || b == "ceil" || b == "trunc" || b == "rint" || b == "round" || b == "nearbyint") return x_math1;
        if (b == "pow" || b == "atan2" || b == "fmod" || b == "fmax" || b == "fmin" || b == "copysign" || b == "hypot" || b == "nextafter") return x_math2;
        if (b == "fma") return x_fma;
        if (b == "ldexp") return x_ldexp;
    }
    return nullptr;
}
