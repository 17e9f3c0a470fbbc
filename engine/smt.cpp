#include "smt.h"
#include "ratfun.h"
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

SmtStats g_smt;
unsigned g_timeoutMs = 20000;
bool g_normal = true;
int g_round = 0;
static z3::context *C;
static bool dbg = getenv("HSYM_SMTDBG") != nullptr;

void smtInit() {
    z3::set_param("model", true);
    C = new z3::context();
}

struct Tr {
    z3::context &c;
    std::unordered_map<Expr *, z3::expr> bv, bl, fp;          // translations
    std::unordered_map<Expr *, std::pair<z3::expr, z3::expr>> nd; // REAL: numerator, denominator
    std::unordered_map<Expr *, std::vector<z3::expr>> side;   // side conditions attached to a node
    Tr(z3::context &cc) : c(cc) {}

    z3::expr num(u128 v, int w) {
        if (w <= 64) return c.bv_val((uint64_t)v, w);
        char buf[64];
        std::string s;
        u128 x = v;
        if (!x) s = "0";
        while (x) { s.insert(s.begin(), '0' + (int)(x % 10)); x /= 10; }
        (void)buf;
        return c.bv_val(s.c_str(), w);
    }
    z3::sort fpsort(int w) { return w == 32 ? c.fpa_sort(8, 24) : w == 64 ? c.fpa_sort(11, 53) : c.fpa_sort(15, 64); }
    z3::expr realOf(double d) {
        // exact rational of a double
        if (d == 0) return c.real_val(0);
        if (std::isnan(d) || std::isinf(d)) return c.real_const(std::isnan(d) ? "!nan" : d > 0 ? "!inf" : "!ninf");
        int ex;
        double m = frexp(d, &ex);
        int64_t mi = (int64_t)ldexp(m, 53);
        ex -= 53;
        while (mi % 2 == 0) { mi /= 2; ex++; }
        z3::expr r = c.real_val(std::to_string(mi).c_str());
        if (ex == 0) return r;
        int n = std::abs(ex);
        // 2^n as decimal string via z3 arithmetic on numerals
        std::string s = "1";
        for (int i = 0; i < n; i++) {
            int carry = 0;
            for (int j = (int)s.size() - 1; j >= 0; j--) {
                int v = (s[j] - '0') * 2 + carry;
                s[j] = '0' + v % 10;
                carry = v / 10;
            }
            if (carry) s.insert(s.begin(), '0' + carry);
        }
        z3::expr p = c.real_val(s.c_str());
        return (ex > 0 ? r * p : r / p).simplify();
    }

    z3::expr asBool(Expr *e) {
        auto it = bl.find(e);
        if (it != bl.end()) return it->second;
        z3::expr r(c);
        switch (e->op) {
        case O_CONST: r = c.bool_val(e->val != 0); break;
        case O_EQ: r = asBV(e->k[0]) == asBV(e->k[1]);
            if (e->k[0]->width == 1) r = asBool(e->k[0]) == asBool(e->k[1]);
            break;
        case O_ULT: r = z3::ult(asBV(e->k[0]), asBV(e->k[1])); break;
        case O_ULE: r = z3::ule(asBV(e->k[0]), asBV(e->k[1])); break;
        case O_SLT: r = asBV(e->k[0]) < asBV(e->k[1]); break;
        case O_SLE: r = asBV(e->k[0]) <= asBV(e->k[1]); break;
        case O_AND: r = asBool(e->k[0]) && asBool(e->k[1]); break;
        case O_OR: r = asBool(e->k[0]) || asBool(e->k[1]); break;
        case O_XOR: r = e->k[1]->isConst() && e->k[1]->val ? !asBool(e->k[0]) : asBool(e->k[0]) != asBool(e->k[1]); break;
        case O_ITE: r = z3::ite(asBool(e->k[0]), asBool(e->k[1]), asBool(e->k[2])); break;
        case O_FEQ: case O_FLT: case O_FLE:
            if (g_fpmode == FP_REAL) {
                if (g_normal && rf(e->k[0]).ok && rf(e->k[1]).ok) {
                    try {
                        RF a = rf(e->k[0]), b = rf(e->k[1]), d = ring.add(a, b, -1);
                        if (e->op == O_FEQ) r = polyZ3(d.n) == 0;
                        else {
                            z3::expr x = polyZ3(d.n);
                            for (auto &f : d.d)
                                if (f.second % 2 && !ring.nonneg(ring.factors[f.first])) x = x * polyZ3(ring.factors[f.first]);
                            r = e->op == O_FLT ? x < 0 : x <= 0;
                        }
                        break;
                    } catch (TooBig &) {
                    }
                }
                auto A = ND(e->k[0]), B = ND(e->k[1]);
                bool plain = isOne(A.second) && isOne(B.second);
                if (e->op == O_FEQ) r = plain ? A.first == B.first : mul(A.first, B.second) == mul(B.first, A.second);
                else {
                    z3::expr x = plain ? A.first : A.first / A.second, y = plain ? B.first : B.first / B.second;
                    r = e->op == O_FLT ? x < y : x <= y;
                }
            } else {
                z3::expr a = asFP(e->k[0]), b = asFP(e->k[1]);
                r = e->op == O_FEQ ? z3::expr(c, Z3_mk_fpa_eq(c, a, b)) : e->op == O_FLT ? z3::expr(c, Z3_mk_fpa_lt(c, a, b)) : z3::expr(c, Z3_mk_fpa_leq(c, a, b));
            }
            break;
        case O_FUNO:
            if (g_fpmode == FP_REAL) r = c.bool_val(false);
            else r = z3::expr(c, Z3_mk_fpa_is_nan(c, asFP(e->k[0]))) || z3::expr(c, Z3_mk_fpa_is_nan(c, asFP(e->k[1])));
            break;
        default: r = asBV(e) == c.bv_val(1, 1);
        }
        bl.emplace(e, r);
        return r;
    }
    static bool isBoolOp(Op o) {
        switch (o) {
        case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: return true;
        default: return false;
        }
    }
    z3::expr asBV(Expr *e) {
        if (e->sort == S_FP) {
            fprintf(stderr, "asBV of float\n");
            abort();
        }
        auto it = bv.find(e);
        if (it != bv.end()) return it->second;
        z3::expr r(c);
        int w = e->width;
        if (w == 1 && (isBoolOp(e->op) || e->op == O_AND || e->op == O_OR || e->op == O_XOR)) {
            r = z3::ite(asBool(e), c.bv_val(1, 1), c.bv_val(0, 1));
            bv.emplace(e, r);
            return r;
        }
        auto K = [&](int i) { return asBV(e->k[i]); };
        switch (e->op) {
        case O_CONST: r = num(e->val, w); break;
        case O_SYM: r = c.bv_const(symName(e).c_str(), w); break;
        case O_ADD: r = K(0) + K(1); break;
        case O_SUB: r = K(0) - K(1); break;
        case O_MUL: r = K(0) * K(1); break;
        case O_UDIV: r = z3::udiv(K(0), K(1)); break;
        case O_SDIV: r = K(0) / K(1); break;
        case O_UREM: r = z3::urem(K(0), K(1)); break;
        case O_SREM: r = z3::srem(K(0), K(1)); break;
        case O_SHL: r = z3::shl(K(0), K(1)); break;
        case O_LSHR: r = z3::lshr(K(0), K(1)); break;
        case O_ASHR: r = z3::ashr(K(0), K(1)); break;
        case O_AND: r = K(0) & K(1); break;
        case O_OR: r = K(0) | K(1); break;
        case O_XOR: r = K(0) ^ K(1); break;
        case O_ITE: r = z3::ite(asBool(e->k[0]), K(1), K(2)); break;
        case O_ZEXT: r = z3::zext(K(0), w - e->k[0]->width); break;
        case O_SEXT: r = z3::sext(K(0), w - e->k[0]->width); break;
        case O_EXTRACT: r = K(0).extract(e->aux + w - 1, e->aux); break;
        case O_CONCAT: r = z3::concat(K(0), K(1)); break;
        case O_BVOFFP:
            if (g_fpmode == FP_REAL) {
                z3::func_decl f = c.function(("bitsof" + std::to_string(w)).c_str(), c.real_sort(), c.bv_sort(w));
                r = f(val(e->k[0]));
            } else r = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, asFP(e->k[0])));
            break;
        case O_FPTOSI: case O_FPTOUI:
            if (g_fpmode == FP_REAL) {
                z3::expr v = val(e->k[0]);
                z3::expr fl = z3::expr(c, Z3_mk_real2int(c, v));
                z3::expr ce = -z3::expr(c, Z3_mk_real2int(c, -v));
                r = z3::int2bv(w, z3::ite(v >= 0, fl, ce));
            } else {
                z3::expr rz(c, Z3_mk_fpa_rtz(c));
                r = e->op == O_FPTOSI ? z3::expr(c, Z3_mk_fpa_to_sbv(c, rz, asFP(e->k[0]), w)) : z3::expr(c, Z3_mk_fpa_to_ubv(c, rz, asFP(e->k[0]), w));
            }
            break;
        default: r = z3::ite(asBool(e), c.bv_val(1, 1), c.bv_val(0, 1));
        }
        bv.emplace(e, r);
        return r;
    }
    std::string symName(Expr *e) { return g_syms[e->aux].name + "#" + std::to_string(g_syms[e->aux].idx); }

    static bool isOne(const z3::expr &e) { return e.is_numeral() && e.is_arith() && e.get_decimal_string(3) == "1"; }
    z3::expr mul(const z3::expr &a, const z3::expr &b) {
        if (isOne(a)) return b;
        if (isOne(b)) return a;
        return a * b;
    }
    Ring ring;
    std::unordered_map<Expr *, RF> rfs;
    std::vector<z3::expr> atoms;
    std::unordered_map<unsigned, uint32_t> atomOf; // by z3 term
    uint32_t atomNo(const z3::expr &x) {
        auto it = atomOf.find(x.hash());
        if (it != atomOf.end() && z3::eq(atoms[it->second], x)) return it->second;
        for (uint32_t i = 0; i < atoms.size() && it != atomOf.end(); i++)
            if (z3::eq(atoms[i], x)) return i;
        atoms.push_back(x);
        atomOf[x.hash()] = (uint32_t)atoms.size() - 1;
        return (uint32_t)atoms.size() - 1;
    }
    static mpq_class ratOf(double d) { mpq_class q(d); q.canonicalize(); return q; }
    z3::expr polyZ3(const Poly &p) {
        if (p.empty()) return c.real_val(0);
        z3::expr_vector ts(c);
        for (auto &t : p) {
            z3::expr_vector fs(c);
            if (t.second != 1 || t.first.empty()) fs.push_back(c.real_val(t.second.get_str().c_str()));
            for (uint32_t v : t.first) fs.push_back(atoms[v]);
            if (fs.size() == 1) ts.push_back(fs[0]);
            else {
                std::vector<Z3_ast> a;
                for (unsigned i = 0; i < fs.size(); i++) a.push_back(fs[i]);
                ts.push_back(z3::expr(c, Z3_mk_mul(c, (unsigned)a.size(), a.data())));
            }
        }
        return ts.size() == 1 ? ts[0] : z3::sum(ts);
    }
    z3::expr denZ3(const RF &r) {
        z3::expr x = c.real_val(1);
        for (auto &f : r.d) {
            z3::expr y = polyZ3(ring.factors[f.first]);
            for (int i = 0; i < f.second; i++) x = mul(x, y);
        }
        return x;
    }
    std::map<uint32_t, std::pair<RF, RF>> angles; // atoms that are the angle of X + iY
    // the square root; the same radicand has the same root
    RF rootRF(const RF &a, std::vector<z3::expr> &facts) {
        if (Ring::isConst(a.n) && a.d.empty()) {
            mpq_class q = a.n.empty() ? mpq_class(0) : a.n.begin()->second;
            if (q >= 0 && mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) {
                mpz_class x = sqrt(q.get_num()), y = sqrt(q.get_den());
                return Ring::constant(mpq_class(x, y));
            }
        }
        z3::expr A = polyZ3(a.n), B = denZ3(a), w = isOne(B) ? A : A / B;
        z3::func_decl f = c.function("sqrt!", c.real_sort(), c.real_sort());
        z3::expr key = f(w);
        auto k = rootOf.find(key.id());
        if (k == rootOf.end()) {
            k = rootOf.emplace(key.id(), c.real_const(("sqrt!!" + std::to_string(rootOf.size())).c_str())).first;
            keep.push_back(key);
        }
        z3::expr s = k->second;
        uint32_t v = atomNo(s);
        facts.push_back(mul(s * s, B) == A);
        facts.push_back(s >= 0);
        ring.square[v] = std::make_shared<RF>(a);
        ring.positive[v] = true;
        return Ring::atom(v);
    }
    // normal form of a real term; ok = false if it grows too large
    const RF &rf(Expr *e) {
        auto it = rfs.find(e);
        if (it != rfs.end()) return it->second;
        RF r;
        try {
            auto K = [&](int i) -> const RF & { return rf(e->k[i]); };
            auto leaf = [&]() { auto p = leafND(e); r = Ring::atom(atomNo(p.first)); if (!isOne(p.second)) { RF d = Ring::atom(atomNo(p.second)); r = ring.div(r, d); } };
            switch (e->op) {
            case O_CONST:
                if (std::isfinite(constF(e))) r = Ring::constant(ratOf(constF(e)));
                else leaf();
                break;
            case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
                if (!K(0).ok || !K(1).ok) throw TooBig();
                RF a = K(0), b = K(1);
                if (e->op == O_FMUL) r = ring.mul(a, b);
                else if (e->op != O_FDIV) r = ring.add(a, b, e->op == O_FADD ? 1 : -1);
                else {
                    if (b.n.empty()) throw TooBig();
                    if (!Ring::isConst(b.n) || !b.d.empty()) side[e].push_back(polyZ3(b.n) != 0);
                    r = ring.div(a, b);
                }
                break;
            }
            case O_FMA: {
                if (!K(0).ok || !K(1).ok || !K(2).ok) throw TooBig();
                RF a = K(0), b = K(1), d = K(2);
                r = ring.add(ring.mul(a, b), d, 1);
                break;
            }
            case O_FNEG: {
                if (!K(0).ok) throw TooBig();
                r = K(0);
                for (auto &t : r.n) t.second = -t.second;
                break;
            }
            case O_FPCONV:
                if (!K(0).ok) throw TooBig();
                r = K(0);
                break;
            case O_FSQRT: {
                if (!K(0).ok) throw TooBig();
                RF a = K(0);
                r = rootRF(a, side[e]);
                break;
            }
            case O_FABS: {
                if (K(0).ok) {
                    RF a = K(0);
                    if (a.d.empty() && ring.nonneg(a.n)) { r = a; break; }
                    leaf();
                    if (r.n.size() == 1 && r.n.begin()->first.size() == 1 && r.d.empty()) {
                        uint32_t v = r.n.begin()->first[0];
                        ring.square[v] = std::make_shared<RF>(ring.mul(a, a));
                        ring.positive[v] = true;
                    }
                } else leaf();
                break;
            }
            case O_UF: {
                const std::string &n = g_ufs[e->aux];
                if ((n == "sin" || n == "cos") && e->nk == 1 && K(0).ok) {
                    RF a = K(0);
                    bool isSin = n == "sin", neg = false;
                    if (a.n.empty()) { r = Ring::constant(isSin ? 0 : 1); break; }
                    if (a.n.begin()->second < 0) {
                        neg = true;
                        for (auto &t : a.n) t.second = -t.second;
                    }
                    z3::expr B = denZ3(a), A = isOne(B) ? polyZ3(a.n) : polyZ3(a.n) / B;
                    z3::func_decl fs = c.function("sin", c.real_sort(), c.real_sort()), fc = c.function("cos", c.real_sort(), c.real_sort());
                    z3::expr S = fs(A), C = fc(A);
                    side[e].push_back(S * S + C * C == 1);
                    uint32_t vs = atomNo(S), vc = atomNo(C);
                    RF s_ = Ring::atom(vs), c_ = Ring::atom(vc);
                    std::map<uint32_t, std::pair<RF, RF>>::iterator g = angles.end();
                    mpq_class q;
                    if (a.d.empty() && a.n.size() == 1 && a.n.begin()->first.size() == 1) g = angles.find(a.n.begin()->first[0]), q = a.n.begin()->second;
                    if (g != angles.end() && q.get_num() == 1 && q.get_den() >= 1 && q.get_den() <= 3) {
                        // a fraction of the angle of X + iY: (c + is)^k = (X + iY) / |X + iY|
                        RF X = g->second.first, Y = g->second.second, h = ring.add(ring.mul(X, X), ring.mul(Y, Y), 1);
                        if (!Ring::isConst(h.n) || !h.d.empty()) side[e].push_back(polyZ3(h.n) != 0);
                        RF R = rootRF(h, side[e]), wx = ring.div(X, R), wy = ring.div(Y, R);
                        long k = q.get_den().get_si();
                        if (k == 1) c_ = wx, s_ = wy;
                        else {
                            RF half = Ring::constant(mpq_class(1, 2)), one = Ring::constant(1);
                            // k = 2: z^2 = w;  k = 3: z^2 = w conj(z)
                            RF re = k == 2 ? wx : ring.add(ring.mul(wx, c_), ring.mul(wy, s_), 1), im = k == 2 ? wy : ring.add(ring.mul(wy, c_), ring.mul(wx, s_), -1);
                            ring.square[vc] = std::make_shared<RF>(ring.mul(half, ring.add(one, re, 1)));
                            ring.square[vs] = std::make_shared<RF>(ring.mul(half, ring.add(one, re, -1)));
                            ring.pairs[{std::min(vc, vs), std::max(vc, vs)}] = std::make_shared<RF>(ring.mul(half, im));
                        }
                    } else if (!ring.square.count(vc)) ring.square[vc] = std::make_shared<RF>(ring.add(Ring::constant(1), ring.mul(s_, s_), -1));
                    r = isSin ? s_ : c_;
                    if (isSin && neg)
                        for (auto &t : r.n) t.second = -t.second;
                    break;
                }
                if (n == "atan2" && e->nk == 2 && K(0).ok && K(1).ok) {
                    RF Y = K(0), X = K(1);
                    if (Y.n.empty() && X.d.empty() && Ring::isConst(X.n) && !X.n.empty() && X.n.begin()->second > 0) break; // 0
                    leaf();
                    if (r.n.size() == 1 && r.n.begin()->first.size() == 1 && r.d.empty()) angles[r.n.begin()->first[0]] = {X, Y};
                    break;
                }
                leaf();
                if (r.n.size() == 1 && r.n.begin()->first.size() == 1) {
                    uint32_t v = r.n.begin()->first[0];
                    if (n == "exp") ring.positive[v] = true;
                    if (n == "cos" && e->nk == 1) {
                        z3::expr si = c.function("sin", c.real_sort(), c.real_sort())(val(e->k[0]));
                        RF q = Ring::atom(atomNo(si));
                        ring.square[v] = std::make_shared<RF>(ring.add(Ring::constant(1), ring.mul(q, q), -1));
                    }
                }
                break;
            }
            default: leaf();
            }
        } catch (TooBig &) {
            r = RF();
            r.ok = false;
        }
        return rfs.emplace(e, r).first->second;
    }
    std::unordered_map<unsigned, z3::expr> rootOf;
    std::vector<z3::expr> keep;
    z3::expr val(Expr *e) {
        auto p = ND(e);
        return isOne(p.second) ? p.first : p.first / p.second;
    }
    std::pair<z3::expr, z3::expr> ND(Expr *e) {
        auto it = nd.find(e);
        if (it != nd.end()) return it->second;
        if (g_normal) {
            const RF &x = rf(e);
            if (x.ok) {
                std::pair<z3::expr, z3::expr> r(polyZ3(x.n), denZ3(x));
                nd.erase(e);
                nd.emplace(e, r);
                return r;
            }
        }
        return leafND(e);
    }
    // an integer rounded to the nearest double (ties to even); values up to 2^(53 + g_round)
    int nround = 0;
    z3::expr rounded(const z3::expr &x, std::vector<z3::expr> &facts) {
        std::string id = std::to_string(nround++);
        z3::expr r = c.real_const(("fl!" + id).c_str()), qi = c.int_const(("flq!" + id).c_str()), q = z3::to_real(qi), a = z3::ite(x >= 0, x, -x);
        auto p2 = [&](int n) { mpz_class z(1); z <<= n; return c.real_val(z.get_str().c_str()); };
        z3::expr_vector alt(c);
        alt.push_back(a < p2(53) && r == x);
        for (int p = 1; p <= g_round; p++) {
            z3::expr d = x - r, h = p2(p - 1);
            alt.push_back(a >= p2(52 + p) && a < p2(53 + p) && r == p2(p) * q && d <= h && d >= -h && z3::implies(d == h || d == -h, z3::mod(qi, 2) == 0));
        }
        alt.push_back(a >= p2(53 + g_round));
        facts.push_back(z3::mk_or(alt));
        return r;
    }
    std::pair<z3::expr, z3::expr> leafND(Expr *e) {
        auto it = nd.find(e);
        if (it != nd.end()) return it->second;
        z3::expr one = c.real_val(1);
        std::pair<z3::expr, z3::expr> r(one, one);
        auto same = [&](const z3::expr &a, const z3::expr &b) { return z3::eq(a, b); };
        switch (e->op) {
        case O_CONST: r.first = realOf(constF(e)); break;
        case O_SYM:
            r.first = c.real_const(symName(e).c_str());
            if (g_round && e->width == 64) { // an integer that is a double
                z3::expr x = z3::to_real(c.int_const((symName(e) + "!int").c_str()));
                z3::expr y = rounded(x, side[e]), m = c.real_val(mpz_class(mpz_class(1) << (53 + g_round)).get_str().c_str());
                side[e].push_back(r.first == y && x < m && x > -m);
            }
            break;
        case O_FADD: case O_FSUB: {
            auto A = ND(e->k[0]), B = ND(e->k[1]);
            if (g_round && e->width == 64) {
                r.first = rounded(e->op == O_FADD ? A.first + B.first : A.first - B.first, side[e]);
                break;
            }
            if (same(A.second, B.second)) r = {e->op == O_FADD ? A.first + B.first : A.first - B.first, A.second};
            else {
                z3::expr x = mul(A.first, B.second), y = mul(B.first, A.second);
                r = {e->op == O_FADD ? x + y : x - y, mul(A.second, B.second)};
            }
            break;
        }
        case O_FMUL: {
            auto A = ND(e->k[0]), B = ND(e->k[1]);
            r = {mul(A.first, B.first), mul(A.second, B.second)};
            if (g_round && e->width == 64) r.first = rounded(r.first, side[e]);
            break;
        }
        case O_FDIV: {
            auto A = ND(e->k[0]), B = ND(e->k[1]);
            if (e->k[1]->isConst()) {
                r = {A.first * (one / B.first).simplify(), A.second};
            } else {
                side[e].push_back(B.first != 0);
                r = {mul(A.first, B.second), mul(A.second, B.first)};
            }
            break;
        }
        case O_FNEG: { auto A = ND(e->k[0]); r = {-A.first, A.second}; break; }
        case O_FABS: { z3::expr v = val(e->k[0]); r.first = z3::ite(v >= 0, v, -v); break; }
        case O_FSQRT: {
            z3::expr s = c.real_const(("sqrt!" + std::to_string(e->id)).c_str());
            auto A = ND(e->k[0]);
            side[e].push_back(mul(s * s, A.second) == A.first);
            side[e].push_back(s >= 0);
            r.first = s;
            break;
        }
        case O_FPCONV: r = ND(e->k[0]); break;
        case O_SITOFP: r.first = z3::to_real(z3::bv2int(asBV(e->k[0]), true)); break;
        case O_UITOFP: r.first = z3::to_real(z3::bv2int(asBV(e->k[0]), false)); break;
        case O_ITE: {
            auto A = ND(e->k[1]), B = ND(e->k[2]);
            z3::expr cnd = asBool(e->k[0]);
            if (same(A.second, B.second)) r = {z3::ite(cnd, A.first, B.first), A.second};
            else r = {z3::ite(cnd, A.first, B.first), z3::ite(cnd, A.second, B.second)};
            break;
        }
        case O_FFLOOR: r.first = z3::to_real(z3::expr(c, Z3_mk_real2int(c, val(e->k[0])))); break;
        case O_FCEIL: r.first = -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -val(e->k[0])))); break;
        case O_FTRUNC: {
            z3::expr v = val(e->k[0]);
            r.first = z3::ite(v >= 0, z3::to_real(z3::expr(c, Z3_mk_real2int(c, v))), -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -v))));
            break;
        }
        case O_FRINT: case O_FROUND: { // nearest; ties away / even distinguished only by a ulp-free model: use half-away
            z3::expr v = val(e->k[0]);
            z3::expr h = c.real_val(1, 2);
            r.first = z3::ite(v >= 0, z3::to_real(z3::expr(c, Z3_mk_real2int(c, v + h))), -z3::to_real(z3::expr(c, Z3_mk_real2int(c, h - v))));
            break;
        }
        case O_FPOFBV: {
            z3::func_decl f = c.function(("realofbits" + std::to_string(e->width)).c_str(), c.bv_sort(e->width), c.real_sort());
            r.first = f(asBV(e->k[0]));
            break;
        }
        case O_FREM: {
            z3::func_decl f = c.function("fmod", c.real_sort(), c.real_sort(), c.real_sort());
            r.first = f(val(e->k[0]), val(e->k[1]));
            break;
        }
        case O_FMA: { r.first = val(e->k[0]) * val(e->k[1]) + val(e->k[2]); break; }
        case O_UF: {
            z3::sort_vector d(c);
            z3::expr_vector a(c);
            for (uint32_t i = 0; i < e->nk; i++) { d.push_back(c.real_sort()); a.push_back(val(e->k[i])); }
            z3::func_decl f = c.function(g_ufs[e->aux].c_str(), d, c.real_sort());
            r.first = f(a);
            const std::string &n = g_ufs[e->aux];
            if ((n == "sin" || n == "cos") && e->nk == 1) {
                z3::func_decl s = c.function("sin", d, c.real_sort()), co = c.function("cos", d, c.real_sort());
                side[e].push_back(s(a) * s(a) + co(a) * co(a) == 1);
            }
            if (n == "exp") side[e].push_back(r.first > 0);
            break;
        }
        default: fprintf(stderr, "ND: op %d\n", e->op); abort();
        }
        nd.emplace(e, r);
        return r;
    }
    z3::expr asFP(Expr *e) { // IEEE
        auto it = fp.find(e);
        if (it != fp.end()) return it->second;
        z3::expr r(c);
        int w = e->width;
        z3::expr rne(c, Z3_mk_fpa_rne(c));
        auto K = [&](int i) { return asFP(e->k[i]); };
        auto frombits = [&](z3::expr b) { return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, b, fpsort(w))); };
        switch (e->op) {
        case O_CONST:
            if (w == 80) r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne, z3::expr(c, Z3_mk_fpa_to_fp_bv(c, num(bitsOfF(constF(e), 64), 64), fpsort(64))), fpsort(80)));
            else r = frombits(num(e->val, w));
            break;
        case O_SYM: r = z3::expr(c, Z3_mk_const(c, Z3_mk_string_symbol(c, symName(e).c_str()), fpsort(w))); break;
        case O_FADD: r = z3::expr(c, Z3_mk_fpa_add(c, rne, K(0), K(1))); break;
        case O_FSUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rne, K(0), K(1))); break;
        case O_FMUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rne, K(0), K(1))); break;
        case O_FDIV: r = z3::expr(c, Z3_mk_fpa_div(c, rne, K(0), K(1))); break;
        case O_FMA: r = z3::expr(c, Z3_mk_fpa_fma(c, rne, K(0), K(1), K(2))); break;
        case O_FNEG: r = z3::expr(c, Z3_mk_fpa_neg(c, K(0))); break;
        case O_FABS: r = z3::expr(c, Z3_mk_fpa_abs(c, K(0))); break;
        case O_FSQRT: r = z3::expr(c, Z3_mk_fpa_sqrt(c, rne, K(0))); break;
        case O_FFLOOR: r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtn(c)), K(0))); break;
        case O_FCEIL: r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtp(c)), K(0))); break;
        case O_FTRUNC: r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtz(c)), K(0))); break;
        case O_FRINT: r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, rne, K(0))); break;
        case O_FROUND: r = z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rna(c)), K(0))); break;
        case O_FPCONV: r = z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne, K(0), fpsort(w))); break;
        case O_SITOFP: r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne, asBV(e->k[0]), fpsort(w))); break;
        case O_UITOFP: r = z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne, asBV(e->k[0]), fpsort(w))); break;
        case O_FPOFBV: r = frombits(asBV(e->k[0])); break;
        case O_ITE: r = z3::ite(asBool(e->k[0]), K(1), K(2)); break;
        case O_UF: case O_FREM: {
            z3::sort_vector d(c);
            z3::expr_vector a(c);
            for (uint32_t i = 0; i < e->nk; i++) { d.push_back(fpsort(e->k[i]->width)); a.push_back(K(i)); }
            z3::func_decl f = c.function(e->op == O_UF ? (g_ufs[e->aux] + std::to_string(w)).c_str() : "frem", d, fpsort(w));
            r = f(a);
            break;
        }
        default: fprintf(stderr, "asFP: op %d\n", e->op); abort();
        }
        fp.emplace(e, r);
        return r;
    }
    // does the conjunction's DAG contain nodes with side conditions?
    void collectSide(Expr *e, std::set<Expr *> &seen, z3::expr_vector &out) {
        std::vector<Expr *> st{e};
        while (!st.empty()) {
            Expr *x = st.back();
            st.pop_back();
            if (!seen.insert(x).second) continue;
            auto it = side.find(x);
            if (it != side.end())
                for (auto &s : it->second) out.push_back(s);
            for (uint32_t i = 0; i < x->nk; i++) st.push_back(x->k[i]);
        }
    }
};
static Tr *T;

static u128 parseDec(const std::string &s) {
    u128 r = 0;
    for (char ch : s) if (ch >= '0' && ch <= '9') r = r * 10 + (ch - '0');
    return r;
}
static bool exactRat(const z3::expr &v, double &d) {
    // rational numeral -> nearest double
    std::string n = v.numerator().get_decimal_string(0), dn = v.denominator().get_decimal_string(0);
    for (auto *s : {&n, &dn}) if (!s->empty() && s->back() == '?') s->pop_back();
    long double a = strtold(n.c_str(), nullptr), b = strtold(dn.c_str(), nullptr);
    d = (double)(a / b);
    return (long double)d * b == a && n.size() < 18 && dn.size() < 18;
}

static std::unordered_map<std::string, int> dummy;
static std::map<std::vector<uint32_t>, std::pair<SatRes, Model>> cache;

static bool hasDivOrPoly(Expr *) { return true; }

SatRes smtCheck(const std::vector<Expr *> &cs0, Model *m, unsigned timeoutMs) {
    std::vector<Expr *> cs;
    // split conjunctions
    std::vector<Expr *> st(cs0.rbegin(), cs0.rend());
    while (!st.empty()) {
        Expr *e = st.back();
        st.pop_back();
        if (e->isConst()) {
            if (!e->val) { return R_UNSAT; }
            continue;
        }
        if (e->op == O_AND && e->width == 1) { st.push_back(e->k[1]); st.push_back(e->k[0]); continue; }
        cs.push_back(e);
    }
    std::vector<uint32_t> key;
    for (auto e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_smt.cacheHits++;
        if (m) *m = it->second.second;
        return it->second.first;
    }
    if (!T) T = new Tr(*C);
    auto t0 = std::chrono::steady_clock::now();
    z3::expr_vector as(*C), sides(*C);
    std::set<Expr *> seen;
    std::vector<Expr *> useful;
    for (auto e : cs) as.push_back(T->asBool(e));
    for (auto e : cs) T->collectSide(e, seen, sides);
    SatRes res = R_UNKNOWN;
    Model mod;
    unsigned to = timeoutMs ? timeoutMs : g_timeoutMs;
    try {
        bool anyReal = false;
        for (auto e : seen) if (e->sort == S_FP) anyReal = true;
        // phase 1: polynomial normal form (sum of monomials) of every constraint
        z3::expr_vector as2(*C);
        bool contradiction = false;
        z3::params sp(*C);
        if (anyReal && g_fpmode == FP_REAL) {
            sp.set("som", true);
            sp.set("arith_lhs", true);
            sp.set("som_blowup", 1000000u);
            sp.set("hoist_mul", false);
        }
        for (unsigned i = 0; i < as.size(); i++) {
            z3::expr s = as[i].simplify(sp);
            if (s.is_false()) { contradiction = true; break; }
            if (!s.is_true()) as2.push_back(s);
        }
        if (contradiction) res = R_UNSAT;
        else {
            z3::solver s(*C);
            z3::params p(*C);
            p.set("timeout", to);
            s.set(p);
            for (unsigned i = 0; i < as2.size(); i++) s.add(as2[i]);
            for (unsigned i = 0; i < sides.size(); i++) s.add(sides[i]);
            if (dbg) fprintf(stderr, "%s(check-sat)\n", s.to_smt2().c_str());
            z3::check_result r = s.check();
            if (r == z3::unsat) res = R_UNSAT;
            else if (r == z3::sat) {
                res = R_SAT;
                z3::model zm = s.get_model();
                std::set<uint32_t> syms;
                for (auto e : cs) for (auto x : symsOf(e)) syms.insert(x);
                for (uint32_t x : syms) {
                    Expr *e = g_syms[x].e;
                    if (e->sort == S_BV) {
                        z3::expr v = zm.eval(T->asBV(e), true);
                        mod.bits[x] = parseDec(v.get_decimal_string(0));
                        if (v.is_numeral()) {
                            std::string str = Z3_get_numeral_string(*C, v);
                            mod.bits[x] = parseDec(str);
                        }
                    } else if (g_fpmode == FP_REAL) {
                        z3::expr v = zm.eval(T->ND(e).first, true);
                        double d = 0;
                        if (v.is_algebraic()) { d = strtod(v.get_decimal_string(20).c_str(), nullptr); mod.exact = false; }
                        else if (v.is_numeral()) { if (!exactRat(v, d)) mod.exact = false; }
                        mod.bits[x] = bitsOfF(d, e->width);
                    } else {
                        z3::expr v = zm.eval(z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, T->asFP(e))), true);
                        std::string str = Z3_get_numeral_string(*C, v);
                        mod.bits[x] = parseDec(str);
                    }
                }
            }
        }
    } catch (z3::exception &ex) {
        if (dbg) fprintf(stderr, "z3 exception: %s\n", ex.msg());
        res = R_UNKNOWN;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_smt.queries++;
    g_smt.seconds += dt;
    g_smt.maxSeconds = std::max(g_smt.maxSeconds, dt);
    (res == R_SAT ? g_smt.sat : res == R_UNSAT ? g_smt.unsat : g_smt.unknown)++;
    if (cache.size() > 200000) cache.clear();
    cache[key] = {res, mod};
    if (m) *m = mod;
    return res;
}

bool smtSame(const std::vector<Expr *> &ts) {
    if (!T) T = new Tr(*C);
    auto t0 = std::chrono::steady_clock::now();
    z3::solver s(*C);
    z3::expr_vector d(*C);
    std::set<Expr *> seen;
    for (auto e : ts) {
        if (!seen.insert(e).second) continue;
        if (e->sort == S_BV) { z3::expr b = T->asBV(e); d.push_back(b != b); }
        else if (g_fpmode == FP_REAL) { auto n = T->ND(e); d.push_back(n.first * n.second != n.first * n.second); }
        else { z3::expr f = T->asFP(e); d.push_back(f != f); }
    }
    s.add(z3::mk_or(d));
    z3::check_result r = s.check();
    g_smt.queries++;
    g_smt.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    (r == z3::sat ? g_smt.sat : r == z3::unsat ? g_smt.unsat : g_smt.unknown)++;
    return r == z3::unsat;
}

// ------------------------------------------------------------------ concrete evaluation
static double fval(u128 b, int w) {
    if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
    if (w == 64) { uint64_t x = (uint64_t)b; double f; memcpy(&f, &x, 8); return f; }
    long double l = 0; memcpy(&l, &b, 10); return (double)l;
}
static u128 ev(Expr *e, const Model &m, std::unordered_map<Expr *, u128> &memo) {
    if (e->op == O_CONST) return e->val;
    if (e->op == O_SYM) { auto it = m.bits.find(e->aux); return it == m.bits.end() ? 0 : it->second; }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 a[4];
    int w = e->width;
    if (e->op == O_ITE) {
        u128 r = ev(e->k[0], m, memo) ? ev(e->k[1], m, memo) : ev(e->k[2], m, memo);
        memo[e] = r;
        return r;
    }
    Expr *ks[4];
    for (uint32_t i = 0; i < e->nk; i++) {
        a[i] = ev(e->k[i], m, memo);
        ks[i] = mkConst(a[i], e->k[i]->width, e->k[i]->sort);
    }
    Expr *r = nullptr;
    switch (e->op) {
    case O_ADD: case O_SUB: case O_MUL: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR:
        r = mkBin(e->op, ks[0], ks[1]); break;
    case O_UDIV: r = a[1] ? mkBin(e->op, ks[0], ks[1]) : mkConst(~(u128)0, w); break;
    case O_UREM: r = a[1] ? mkBin(e->op, ks[0], ks[1]) : ks[0]; break;
    case O_SDIV: r = a[1] ? mkBin(e->op, ks[0], ks[1]) : mkConst(sextw(a[0], w) < 0 ? 1 : ~(u128)0, w); break;
    case O_SREM: r = a[1] ? mkBin(e->op, ks[0], ks[1]) : ks[0]; break;
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = mkCmp(e->op, ks[0], ks[1]); break;
    case O_ZEXT: r = mkZext(ks[0], w); break;
    case O_SEXT: r = mkSext(ks[0], w); break;
    case O_EXTRACT: r = mkExtract(ks[0], e->aux, w); break;
    case O_CONCAT: r = mkConcat(ks[0], ks[1]); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r = mkF2(e->op, ks[0], ks[1]); break;
    case O_FNEG: case O_FABS: case O_FSQRT: case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FRINT: case O_FROUND: r = mkF1(e->op, ks[0]); break;
    case O_FMA: r = mkFma(ks[0], ks[1], ks[2]); break;
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: r = mkFcmp(e->op, ks[0], ks[1]); break;
    case O_FPTOSI: case O_FPTOUI: r = mkFPToInt(ks[0], w, e->op == O_FPTOSI); break;
    case O_SITOFP: case O_UITOFP: r = mkToFP(ks[0], w, e->op == O_SITOFP); break;
    case O_FPCONV: r = mkFPConv(ks[0], w); break;
    case O_BVOFFP: r = mkBits(ks[0]); break;
    case O_FPOFBV: r = mkFPofBits(ks[0]); break;
    case O_UF: {
        const std::string &n = g_ufs[e->aux];
        double x = fval(a[0], e->k[0]->width), y = e->nk > 1 ? fval(a[1], e->k[1]->width) : 0, v = 0;
        if (n == "sin") v = sin(x); else if (n == "cos") v = cos(x); else if (n == "tan") v = tan(x);
        else if (n == "exp") v = exp(x); else if (n == "log") v = log(x); else if (n == "pow") v = pow(x, y);
        else if (n == "atan2") v = atan2(x, y); else if (n == "acos") v = acos(x); else if (n == "asin") v = asin(x);
        else if (n == "atan") v = atan(x); else if (n == "sinh") v = sinh(x); else if (n == "cosh") v = cosh(x); else if (n == "tanh") v = tanh(x);
        r = mkConst(bitsOfF(v, w), w, S_FP);
        break;
    }
    default: r = mkConst(0, w);
    }
    u128 v = r->isConst() ? r->val : 0;
    memo[e] = v;
    return v;
}
u128 evalExpr(Expr *e, const Model &m) {
    std::unordered_map<Expr *, u128> memo;
    return ev(e, m, memo);
}
