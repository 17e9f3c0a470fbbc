#include "expr.h"
#include <cfenv>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <cstdio>
#include <map>
#include <set>

FpMode g_fpmode = FP_REAL;
std::vector<Expr *> g_exprs;
std::vector<SymInfo> g_syms;
std::vector<std::string> g_ufs;
static std::map<std::string, uint32_t> ufIndex;
static std::map<std::pair<std::string, long>, uint32_t> symIndex;

// ---------------------------------------------------------------- hash consing
static std::vector<Expr *> table(1 << 16, nullptr);
static size_t tableCount = 0;

static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
static Expr *intern(Expr &t) {
    uint64_t h = mix((uint64_t)t.op * 131 + t.sort, (uint64_t)t.width << 32 | t.aux);
    h = mix(h, (uint64_t)t.val);
    h = mix(h, (uint64_t)(t.val >> 64));
    for (uint32_t i = 0; i < t.nk; i++)
        h = mix(h, t.k[i]->id + 1);
    t.hash = h;
    if (tableCount * 2 > table.size()) {
        std::vector<Expr *> n(table.size() * 4, nullptr);
        for (Expr *e : table)
            if (e) {
                size_t p = e->hash & (n.size() - 1);
                while (n[p]) p = (p + 1) & (n.size() - 1);
                n[p] = e;
            }
        table.swap(n);
    }
    size_t p = h & (table.size() - 1);
    while (Expr *e = table[p]) {
        if (e->hash == h && e->op == t.op && e->sort == t.sort && e->width == t.width && e->aux == t.aux &&
            e->nk == t.nk && e->val == t.val) {
            bool same = true;
            for (uint32_t i = 0; i < t.nk; i++)
                if (e->k[i] != t.k[i]) same = false;
            if (same) return e;
        }
        p = (p + 1) & (table.size() - 1);
    }
    Expr *e = new Expr(t);
    e->symset = -1;
    if (g_exprs.empty()) g_exprs.push_back(nullptr); // id 0 reserved
    e->id = g_exprs.size();
    g_exprs.push_back(e);
    table[p] = e;
    tableCount++;
    return e;
}
static Expr blank(Op op, Sort s, int w) {
    Expr t;
    memset((void *)&t, 0, sizeof t);
    t.op = op;
    t.sort = s;
    t.width = w;
    return t;
}
Expr *mkConst(u128 v, int width, Sort s) {
    Expr t = blank(O_CONST, s, width);
    t.val = v & maskw(width);
    return intern(t);
}
Expr *mkSym(const std::string &name, long idx, Sort s, int width) {
    auto key = std::make_pair(name, idx);
    auto it = symIndex.find(key);
    if (it != symIndex.end()) return g_syms[it->second].e;
    Expr t = blank(O_SYM, s, width);
    t.aux = g_syms.size();
    Expr *e = intern(t);
    symIndex[key] = g_syms.size();
    g_syms.push_back({name, idx, s, width, e});
    return e;
}
static Expr *raw(Op op, Sort s, int w, std::initializer_list<Expr *> ks, uint32_t aux = 0) {
    Expr t = blank(op, s, w);
    for (Expr *k : ks) t.k[t.nk++] = k;
    t.aux = aux;
    return intern(t);
}
Expr *mk1(Op op, Expr *a, int width, Sort s, uint32_t aux) { return raw(op, s, width, {a}, aux); }

// ---------------------------------------------------------------- bit-vectors
static u128 foldBin(Op op, u128 a, u128 b, int w, bool &ok) {
    u128 m = maskw(w);
    ok = true;
    switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: if (!b) { ok = false; return 0; } return a / b;
    case O_UREM: if (!b) { ok = false; return 0; } return a % b;
    case O_SDIV: if (!b) { ok = false; return 0; } return (u128)(sextw(b, w) == -1 ? -sextw(a, w) : sextw(a, w) / sextw(b, w)) & m;
    case O_SREM: if (!b) { ok = false; return 0; } return (u128)(sextw(b, w) == -1 ? 0 : sextw(a, w) % sextw(b, w)) & m;
    case O_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case O_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case O_ASHR: { int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(sextw(a, w) >> s) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    default: ok = false; return 0;
    }
}
static bool commut(Op op) {
    return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL || op == O_FEQ;
}
Expr *mkNot(Expr *a) {
    if (a->isConst()) return mkConst(!a->val, 1);
    if (a->op == O_XOR && a->k[1]->isConst()) return a->k[0];
    return raw(O_XOR, S_BV, 1, {a, mkConst(1, 1)});
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
    int w = a->width;
    if (a->isConst() && b->isConst()) {
        bool ok;
        u128 r = foldBin(op, a->val, b->val, w, ok);
        if (ok) return mkConst(r, w);
    }
    if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    if (b->isConst()) {
        u128 v = b->val;
        switch (op) {
        case O_ADD:
            if (!v) return a;
            if (a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->val + v, w));
            break;
        case O_SUB: return mkBin(O_ADD, a, mkConst((u128)0 - v, w));
        case O_MUL:
            if (v == 1) return a;
            if (v == 0) return b;
            if (a->op == O_MUL && a->k[1]->isConst()) return mkBin(O_MUL, a->k[0], mkConst(a->k[1]->val * v, w));
            break;
        case O_UDIV: if (v == 1) return a; break;
        case O_SDIV: if (v == 1) return a; break;
        case O_UREM: if (v == 1) return mkConst(0, w); if ((v & (v - 1)) == 0 && v) return mkBin(O_AND, a, mkConst(v - 1, w)); break;
        case O_SHL: if (!v) return a; if (v >= (u128)w) return mkConst(0, w); return mkBin(O_MUL, a, mkConst((u128)1 << (int)v, w));
        case O_LSHR: if (!v) return a; if (v >= (u128)w) return mkConst(0, w);
            return mkZext(mkExtract(a, (int)v, w - (int)v), w);
        case O_ASHR: if (!v) return a; break;
        case O_AND:
            if (!v) return b;
            if (v == maskw(w)) return a;
            if (a->op == O_AND && a->k[1]->isConst()) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->val & v, w));
            if (((v + 1) & v) == 0) { // low mask
                int n = 0;
                while (((v >> n) & 1) && n < w) n++;
                return mkZext(mkExtract(a, 0, n), w);
            }
            break;
        case O_OR: if (!v) return a; if (v == maskw(w)) return b; break;
        case O_XOR:
            if (!v) return a;
            if (w == 1) { // not
                if (a->op == O_XOR && a->k[1]->isConst()) return a->k[0];
            } else if (a->op == O_XOR && a->k[1]->isConst()) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->val ^ v, w));
            break;
        default: break;
        }
    }
    if (a->isConst() && !a->val && (op == O_SHL || op == O_LSHR || op == O_ASHR || op == O_UDIV || op == O_UREM)) return a;
    if (a == b) {
        switch (op) {
        case O_SUB: case O_XOR: return mkConst(0, w);
        case O_AND: case O_OR: return a;
        default: break;
        }
    }
    if (op == O_OR) { // zext(x) | (y << k)  -> concat where disjoint
        auto asShift = [&](Expr *e, Expr *&x, int &sh) {
            if (e->op == O_MUL && e->k[1]->isConst()) {
                u128 v = e->k[1]->val;
                if (v && (v & (v - 1)) == 0) {
                    sh = 0;
                    while (!((v >> sh) & 1)) sh++;
                    x = e->k[0];
                    return true;
                }
            }
            return false;
        };
        for (int t = 0; t < 2; t++) {
            Expr *lo = t ? b : a, *hi = t ? a : b, *x;
            int sh;
            if (lo->op == O_ZEXT && asShift(hi, x, sh) && (int)lo->k[0]->width <= sh) {
                Expr *l = mkZext(lo->k[0], sh);
                return mkConcat(mkExtract(x, 0, w - sh), l);
            }
        }
    }
    if (op == O_SUB && a->op == O_ADD) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (a->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
    }
    if (w == 1) {
        if (op == O_AND && (a == mkNot(b))) return mkConst(0, 1);
        if (op == O_OR && (a == mkNot(b))) return mkConst(1, 1);
    }
    return raw(op, S_BV, w, {a, b});
}
Expr *mkAnd(Expr *a, Expr *b) { return mkBin(O_AND, a, b); }
Expr *mkOr(Expr *a, Expr *b) { return mkBin(O_OR, a, b); }

Expr *mkCmp(Op op, Expr *a, Expr *b) {
    int w = a->width;
    if (a->sort == S_FP) { a = mkBits(a); }
    if (b->sort == S_FP) { b = mkBits(b); }
    if (a->isConst() && b->isConst()) {
        bool r = false;
        switch (op) {
        case O_EQ: r = a->val == b->val; break;
        case O_ULT: r = a->val < b->val; break;
        case O_ULE: r = a->val <= b->val; break;
        case O_SLT: r = sextw(a->val, w) < sextw(b->val, w); break;
        case O_SLE: r = sextw(a->val, w) <= sextw(b->val, w); break;
        default: break;
        }
        return mkConst(r, 1);
    }
    if (a == b) return mkConst(op == O_EQ || op == O_ULE || op == O_SLE, 1);
    if (op == O_EQ) {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
        if (w == 1) {
            if (b->isConst()) return b->val ? a : mkNot(a);
        }
        if (b->isConst()) {
            if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) {
                bool e1 = a->k[1]->val == b->val, e2 = a->k[2]->val == b->val;
                if (e1 && e2) return mkConst(1, 1);
                if (e1) return a->k[0];
                if (e2) return mkNot(a->k[0]);
                return mkConst(0, 1);
            }
            if (a->op == O_ZEXT) {
                if (b->val >> a->k[0]->width) return mkConst(0, 1);
                return mkCmp(O_EQ, a->k[0], mkConst(b->val, a->k[0]->width));
            }
            if (a->op == O_SEXT) {
                Expr *t = mkConst(b->val, a->k[0]->width);
                if (((u128)sextw(t->val, t->width) & maskw(w)) != b->val) return mkConst(0, 1);
                return mkCmp(O_EQ, a->k[0], t);
            }
            if (a->op == O_ADD && a->k[1]->isConst()) return mkCmp(O_EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
            if (a->op == O_CONCAT) {
                int lw = a->k[1]->width;
                return mkAnd(mkCmp(O_EQ, a->k[0], mkConst(b->val >> lw, w - lw)), mkCmp(O_EQ, a->k[1], mkConst(b->val, lw)));
            }
        }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return mkCmp(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return mkCmp(O_EQ, a->k[0], b->k[0]);
    } else {
        if (op == O_ULT && b->isConst() && b->val == 0) return mkConst(0, 1);
        if (op == O_ULT && b->isConst() && b->val == 1) return mkCmp(O_EQ, a, mkConst(0, w));
        if (op == O_ULE && a->isConst() && a->val == 0) return mkConst(1, 1);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width && (op == O_SLT || op == O_SLE))
            return mkCmp(op, a->k[0], b->k[0]);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width)
            return mkCmp(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->k[0], b->k[0]);
    }
    return raw(op, S_BV, 1, {a, b});
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (c->isConst()) return c->val ? a : b;
    if (a == b) return a;
    if (a->sort != b->sort) {
        if (a->sort == S_FP) b = mkFPofBits(b);
        else a = mkFPofBits(a), std::swap(a, b), std::swap(a, b);
    }
    if (a->sort != b->sort) { a = a->sort == S_FP ? a : mkFPofBits(a); b = b->sort == S_FP ? b : mkFPofBits(b); }
    if (a->sort == S_BV && a->width == 1) {
        if (a->isConst() && b->isConst()) return a->val ? c : mkNot(c);
        if (a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (c->op == O_XOR && c->width == 1 && c->k[1]->isConst()) return mkIte(c->k[0], b, a);
    if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return raw(O_ITE, a->sort, a->width, {c, a, b});
}
Expr *mkZext(Expr *a, int w) {
    if (a->sort == S_FP) a = mkBits(a);
    if (a->width == w) return a;
    if (a->isConst()) return mkConst(a->val, w);
    if (a->op == O_ZEXT) return mkZext(a->k[0], w);
    return raw(O_ZEXT, S_BV, w, {a});
}
Expr *mkSext(Expr *a, int w) {
    if (a->sort == S_FP) a = mkBits(a);
    if (a->width == w) return a;
    if (a->isConst()) return mkConst((u128)sextw(a->val, a->width), w);
    if (a->op == O_SEXT) return mkSext(a->k[0], w);
    if (a->op == O_ZEXT) return mkZext(a->k[0], w);
    return raw(O_SEXT, S_BV, w, {a});
}
Expr *mkExtract(Expr *a, int lo, int w) {
    if (a->sort == S_FP) a = mkBits(a);
    if (lo == 0 && w == (int)a->width) return a;
    if (a->isConst()) return mkConst(a->val >> lo, w);
    if (a->op == O_EXTRACT) return mkExtract(a->k[0], a->aux + lo, w);
    if (a->op == O_CONCAT) {
        int lw = a->k[1]->width;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    if (a->op == O_ZEXT) {
        int iw = a->k[0]->width;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    if (a->op == O_SEXT) {
        int iw = a->k[0]->width;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo == 0) return mkSext(a->k[0], w);
    }
    if (a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    if (lo == 0 && (a->op == O_ADD || a->op == O_MUL || a->op == O_SUB || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
        return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    return raw(O_EXTRACT, S_BV, w, {a}, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
    if (hi->sort == S_FP) hi = mkBits(hi);
    if (lo->sort == S_FP) lo = mkBits(lo);
    int w = hi->width + lo->width;
    if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
    if (hi->isConst() && hi->val == 0) return mkZext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->k[0], lo->aux, w);
    // re-associate so adjacent extracts merge: concat(h, concat(x, y)) with h,x adjacent
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] &&
        hi->aux == lo->k[0]->aux + lo->k[0]->width)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width), lo->k[1]);
    if (hi->op == O_CONCAT && lo->op == O_EXTRACT && hi->k[1]->op == O_EXTRACT && lo->k[0] == hi->k[1]->k[0] &&
        hi->k[1]->aux == lo->aux + lo->width)
        return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, lo->width + hi->k[1]->width));
    return raw(O_CONCAT, S_BV, w, {hi, lo});
}

// ---------------------------------------------------------------- floats
double constF(const Expr *e) {
    if (e->width == 32) {
        uint32_t b = (uint32_t)e->val;
        float f;
        memcpy(&f, &b, 4);
        return f;
    }
    if (e->width == 64) {
        uint64_t b = (uint64_t)e->val;
        double d;
        memcpy(&d, &b, 8);
        return d;
    }
    long double l = 0;
    memcpy(&l, &e->val, 10);
    return (double)l;
}
u128 bitsOfF(double d, int width) {
    if (width == 32) {
        float f = (float)d;
        uint32_t b;
        memcpy(&b, &f, 4);
        return b;
    }
    if (width == 64) {
        uint64_t b;
        memcpy(&b, &d, 8);
        return b;
    }
    long double l = d;
    u128 r = 0;
    memcpy(&r, &l, 10);
    return r;
}
static Expr *fc(double d, int w) { return mkConst(bitsOfF(d, w), w, S_FP); }
static bool isF(Expr *e, double v) { return e->isConst() && constF(e) == v; }

template <class T> static T fop(Op op, T a, T b) {
    switch (op) {
    case O_FADD: return a + b;
    case O_FSUB: return a - b;
    case O_FMUL: return a * b;
    case O_FDIV: return a / b;
    case O_FREM: return std::fmod(a, b);
    default: return 0;
    }
}
static long double constL(const Expr *e) {
    if (e->width != 80) return constF(e);
    long double l = 0;
    memcpy(&l, &e->val, 10);
    return l;
}
static Expr *fcl(long double v, int w) {
    if (w == 80) {
        u128 r = 0;
        memcpy(&r, &v, 10);
        return mkConst(r, 80, S_FP);
    }
    return fc((double)v, w);
}
static Expr *asFP(Expr *a) { return a->sort == S_FP ? a : mkFPofBits(a); }

bool g_exact = false;
bool inexactF(Op op, double x, double y, int w) {
    if (op == O_FREM || (op == O_FDIV && y == 0)) return false;
    feclearexcept(FE_ALL_EXCEPT);
    if (w == 32) {
        volatile float a = (float)x, b = (float)y, r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : a / b;
        (void)r;
    } else {
        volatile double a = x, b = y, r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : a / b;
        (void)r;
    }
    return fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW);
}

Expr *mkF2(Op op, Expr *a, Expr *b) {
    a = asFP(a);
    b = asFP(b);
    int w = a->width;
    if (a->isConst() && b->isConst() && !(g_exact && w != 80 && inexactF(op, constF(a), constF(b), w))) {
        if (w == 32) return fc(fop<float>(op, (float)constF(a), (float)constF(b)), 32);
        if (w == 64) return fc(fop<double>(op, constF(a), constF(b)), 64);
        return fcl(fop<long double>(op, constL(a), constL(b)), 80);
    }
    if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    if (op == O_FMUL && isF(b, 1.0)) return a;
    if (op == O_FDIV && isF(b, 1.0)) return a;
    if (op == O_FMUL && isF(b, -1.0)) return mkF1(O_FNEG, a);
    if (g_fpmode == FP_REAL) {
        if (op == O_FADD && isF(b, 0.0)) return a;
        if (op == O_FSUB && isF(b, 0.0)) return a;
        if (op == O_FSUB && isF(a, 0.0)) return mkF1(O_FNEG, b);
        if (op == O_FMUL && isF(b, 0.0)) return fc(0.0, w);
        if (op == O_FDIV && isF(a, 0.0)) return fc(0.0, w);
        if (op == O_FSUB && a == b) return fc(0.0, w);
        if (op == O_FADD && b->op == O_FNEG && b->k[0] == a) return fc(0.0, w);
        if (op == O_FADD && a->op == O_FNEG && a->k[0] == b) return fc(0.0, w);
    }
    return raw(op, S_FP, w, {a, b});
}
Expr *mkF1(Op op, Expr *a) {
    a = asFP(a);
    int w = a->width;
    if (a->isConst()) {
        long double d = constL(a);
        long double r = 0;
        switch (op) {
        case O_FNEG: return mkConst(a->val ^ ((u128)1 << (w - 1)), w, S_FP);
        case O_FABS: return mkConst(a->val & ~((u128)1 << (w - 1)), w, S_FP);
        case O_FSQRT: r = w == 32 ? (long double)sqrtf((float)d) : w == 64 ? (long double)sqrt((double)d) : sqrtl(d); break;
        case O_FFLOOR: r = floorl(d); break;
        case O_FCEIL: r = ceill(d); break;
        case O_FTRUNC: r = truncl(d); break;
        case O_FRINT: r = rintl(d); break;
        case O_FROUND: r = roundl(d); break;
        default: break;
        }
        return fcl(r, w);
    }
    if (op == O_FNEG && a->op == O_FNEG) return a->k[0];
    if (op == O_FABS && (a->op == O_FABS || a->op == O_FSQRT)) return a;
    if (op == O_FABS && a->op == O_FNEG) return mkF1(O_FABS, a->k[0]);
    return raw(op, S_FP, w, {a});
}
Expr *mkFma(Expr *a, Expr *b, Expr *c) {
    if (g_fpmode == FP_REAL) return mkF2(O_FADD, mkF2(O_FMUL, a, b), c);
    a = asFP(a), b = asFP(b), c = asFP(c);
    if (a->isConst() && b->isConst() && c->isConst()) {
        if (a->width == 32) return fc(fmaf((float)constF(a), (float)constF(b), (float)constF(c)), 32);
        return fc(fma(constF(a), constF(b), constF(c)), 64);
    }
    return raw(O_FMA, S_FP, a->width, {a, b, c});
}
Expr *mkFcmp(Op op, Expr *a, Expr *b) {
    a = asFP(a);
    b = asFP(b);
    if (a->isConst() && b->isConst()) {
        long double x = constL(a), y = constL(b);
        bool r = false;
        switch (op) {
        case O_FEQ: r = x == y; break;
        case O_FLT: r = x < y; break;
        case O_FLE: r = x <= y; break;
        case O_FUNO: r = std::isnan(x) || std::isnan(y); break;
        default: break;
        }
        return mkConst(r, 1);
    }
    // comparisons against infinities / nan in REAL mode: symbols are finite reals
    if (g_fpmode == FP_REAL) {
        if (op == O_FUNO) {
            bool n = (a->isConst() && std::isnan(constF(a))) || (b->isConst() && std::isnan(constF(b)));
            return mkConst(n, 1);
        }
        for (int t = 0; t < 2; t++) {
            Expr *c = t ? b : a;
            if (c->isConst()) {
                long double v = constL(c);
                if (std::isnan(v)) return mkConst(0, 1);
                if (std::isinf(v)) {
                    if (op == O_FEQ) return mkConst(0, 1);
                    bool lessThan = t ? v > 0 : v < 0; // a < b
                    return mkConst(lessThan, 1);
                }
            }
        }
        if (a == b) return mkConst(op == O_FEQ || op == O_FLE, 1);
    }
    if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    return raw(op, S_BV, 1, {a, b});
}
Expr *mkToFP(Expr *a, int width, bool sg) {
    if (a->sort == S_FP) a = mkBits(a);
    if (a->isConst()) {
        if (sg) {
            i128 v = sextw(a->val, a->width);
            return width == 32 ? fc((float)v, 32) : width == 64 ? fc((double)v, 64) : fcl((long double)v, 80);
        }
        u128 v = a->val;
        return width == 32 ? fc((float)v, 32) : width == 64 ? fc((double)v, 64) : fcl((long double)v, 80);
    }
    return raw(sg ? O_SITOFP : O_UITOFP, S_FP, width, {a});
}
Expr *mkFPConv(Expr *a, int width) {
    a = asFP(a);
    if (a->width == width) return a;
    if (a->isConst()) return fcl(constL(a), width);
    if (g_fpmode == FP_REAL && a->op == O_FPCONV && a->k[0]->width == width) return a->k[0];
    if (a->op == O_FPCONV && a->k[0]->width == width && a->width > width) return a->k[0]; // widen then narrow
    return raw(O_FPCONV, S_FP, width, {a});
}
Expr *mkFPToInt(Expr *a, int width, bool sg) {
    a = asFP(a);
    if (a->isConst()) {
        long double v = constL(a);
        if (std::isnan(v)) return mkConst((u128)1 << (width - 1), width);
        if (sg) return mkConst((u128)(i128)v, width);
        return mkConst(v < 0 ? (u128)(i128)v : (u128)v, width);
    }
    if (g_fpmode == FP_REAL && (a->op == O_SITOFP || a->op == O_UITOFP)) {
        if (a->op == O_SITOFP) return a->k[0]->width <= width ? mkSext(a->k[0], width) : mkExtract(a->k[0], 0, width);
        return a->k[0]->width <= width ? mkZext(a->k[0], width) : mkExtract(a->k[0], 0, width);
    }
    if (a->op == O_SITOFP && (a->width == 64 ? a->k[0]->width <= 53 : a->k[0]->width <= 24))
        return a->k[0]->width <= width ? mkSext(a->k[0], width) : mkExtract(a->k[0], 0, width);
    return raw(sg ? O_FPTOSI : O_FPTOUI, S_BV, width, {a});
}
Expr *mkBits(Expr *a) {
    if (a->sort == S_BV) return a;
    if (a->isConst()) return mkConst(a->val, a->width, S_BV);
    if (a->op == O_FPOFBV) return a->k[0];
    return raw(O_BVOFFP, S_BV, a->width, {a});
}
Expr *mkFPofBits(Expr *a) {
    if (a->sort == S_FP) return a;
    if (a->isConst()) return mkConst(a->val, a->width, S_FP);
    if (a->op == O_BVOFFP) return a->k[0];
    if (a->op == O_ITE) return mkIte(a->k[0], mkFPofBits(a->k[1]), mkFPofBits(a->k[2]));
    // sign-bit tricks: x & 0x7ff..., x ^ 0x800..., x | 0x800...
    int w = a->width;
    u128 sign = (u128)1 << (w - 1);
    if (a->op == O_XOR && a->k[1]->isConst() && a->k[1]->val == sign && (a->k[0]->op == O_BVOFFP)) return mkF1(O_FNEG, a->k[0]->k[0]);
    if (a->op == O_AND && a->k[1]->isConst() && a->k[1]->val == sign - 1 && a->k[0]->op == O_BVOFFP) return mkF1(O_FABS, a->k[0]->k[0]);
    if (a->op == O_ZEXT && a->k[0]->op == O_EXTRACT && a->k[0]->aux == 0 && (int)a->k[0]->width == w - 1 && a->k[0]->k[0]->op == O_BVOFFP &&
        (int)a->k[0]->k[0]->width == w)
        return mkF1(O_FABS, a->k[0]->k[0]->k[0]);
    if (a->op == O_OR && a->k[1]->isConst() && a->k[1]->val == sign && a->k[0]->op == O_BVOFFP)
        return mkF1(O_FNEG, mkF1(O_FABS, a->k[0]->k[0]));
    return raw(O_FPOFBV, S_FP, w, {a});
}
Expr *mkUF(const std::string &name, std::vector<Expr *> args, int width) {
    auto it = ufIndex.find(name);
    uint32_t ix;
    if (it == ufIndex.end()) {
        ix = g_ufs.size();
        g_ufs.push_back(name);
        ufIndex[name] = ix;
    } else
        ix = it->second;
    Expr t = blank(O_UF, S_FP, width);
    t.aux = ix;
    for (Expr *a : args) t.k[t.nk++] = asFP(a);
    return intern(t);
}

// ---------------------------------------------------------------- symbol sets
static std::vector<std::vector<uint32_t>> symsets;
static std::map<std::vector<uint32_t>, int> symsetIdx;
static int internSet(std::vector<uint32_t> &&v) {
    auto it = symsetIdx.find(v);
    if (it != symsetIdx.end()) return it->second;
    int id = symsets.size();
    symsets.push_back(v);
    symsetIdx[std::move(v)] = id;
    return id;
}
static int symsetOf(Expr *e) {
    if (e->symset >= 0) return e->symset;
    // iterative post-order to avoid deep recursion
    std::vector<Expr *> st{e};
    while (!st.empty()) {
        Expr *x = st.back();
        if (x->symset >= 0) { st.pop_back(); continue; }
        bool ready = true;
        for (uint32_t i = 0; i < x->nk; i++)
            if (x->k[i]->symset < 0) { st.push_back(x->k[i]); ready = false; }
        if (!ready) continue;
        st.pop_back();
        if (x->op == O_SYM) { x->symset = internSet({x->aux}); continue; }
        if (x->nk == 0) { x->symset = internSet({}); continue; }
        if (x->nk == 1) { x->symset = x->k[0]->symset; continue; }
        std::vector<uint32_t> u = symsets[x->k[0]->symset], r;
        int first = x->k[0]->symset;
        bool same = true;
        for (uint32_t i = 1; i < x->nk; i++) {
            if (x->k[i]->symset == first) continue;
            same = false;
            auto &b = symsets[x->k[i]->symset];
            r.clear();
            std::set_union(u.begin(), u.end(), b.begin(), b.end(), std::back_inserter(r));
            u = r;
        }
        x->symset = same ? first : internSet(std::move(u));
    }
    return e->symset;
}
const std::vector<uint32_t> &symsOf(Expr *e) { return symsets[symsetOf(e)]; }

static const char *opNames[] = {"const", "sym", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^", "==", "<u", "<=u", "<s", "<=s",
    "ite", "zext", "sext", "extract", "concat", "f+", "f-", "f*", "f/", "frem", "fneg", "sqrt", "fabs", "fma", "floor", "ceil", "trunc", "rint", "round",
    "f==", "f<", "f<=", "funo", "fptosi", "fptoui", "sitofp", "uitofp", "fpconv", "bits", "fpofbits", "uf"};
std::string showExpr(Expr *e, int depth) {
    char buf[64];
    if (e->op == O_CONST) {
        if (e->sort == S_FP) snprintf(buf, sizeof buf, "%.17g", constF(e));
        else snprintf(buf, sizeof buf, "%lld", (long long)sextw(e->val, e->width));
        return buf;
    }
    if (e->op == O_SYM) return g_syms[e->aux].name + "[" + std::to_string(g_syms[e->aux].idx) + "]";
    if (depth <= 0) return "...";
    std::string s = "(";
    s += e->op == O_UF ? g_ufs[e->aux] : opNames[e->op];
    if (e->op == O_EXTRACT) { snprintf(buf, sizeof buf, "[%u+%u]", e->aux, e->width); s += buf; }
    for (uint32_t i = 0; i < e->nk; i++) s += " " + showExpr(e->k[i], depth - 1);
    return s + ")";
}
