// Rational functions over atoms (symbols, square roots, ...): sparse numerator, factored denominator, exact rational coefficients.
#pragma once
#include <gmpxx.h>
#include <map>
#include <vector>
#include <memory>
#include <algorithm>
#include <iterator>

typedef std::vector<uint32_t> Mono; // sorted atom numbers, repeated according to the exponent
struct MonoGt {                     // lexicographic order of the exponents, largest first
    bool operator()(const Mono &a, const Mono &b) const {
        size_t n = std::min(a.size(), b.size());
        for (size_t i = 0; i < n; i++)
            if (a[i] != b[i]) return a[i] < b[i];
        return a.size() > b.size();
    }
};
typedef std::map<Mono, mpq_class, MonoGt> Poly;
struct TooBig {};
struct RF {
    Poly n;
    std::map<int, int> d; // factor -> exponent
    bool ok = true;
};
struct Ring {
    size_t limit = 6000;
    std::vector<Poly> factors;
    std::map<Poly, int> findex;
    std::map<uint32_t, std::shared_ptr<RF>> square; // atoms whose square is known
    std::map<uint32_t, bool> positive;              // atoms that are never negative
    std::map<std::pair<uint32_t, uint32_t>, std::shared_ptr<RF>> pairs; // products of two different atoms that are known

    static Mono mul(const Mono &a, const Mono &b) {
        Mono r;
        r.resize(a.size() + b.size());
        std::merge(a.begin(), a.end(), b.begin(), b.end(), r.begin());
        return r;
    }
    static bool div(const Mono &a, const Mono &b, Mono &r) {
        r.clear();
        size_t j = 0;
        for (size_t i = 0; i < a.size(); i++) {
            if (j < b.size() && a[i] == b[j]) j++;
            else r.push_back(a[i]);
        }
        return j == b.size();
    }
    static void addTo(Poly &p, const Mono &m, const mpq_class &c) {
        auto it = p.find(m);
        if (it == p.end()) { if (c != 0) p.emplace(m, c); }
        else {
            it->second += c;
            if (it->second == 0) p.erase(it);
        }
    }
    Poly add(const Poly &a, const Poly &b, int sign) {
        Poly r = a;
        for (auto &t : b) addTo(r, t.first, sign > 0 ? t.second : mpq_class(-t.second));
        if (r.size() > limit) throw TooBig();
        return r;
    }
    Poly mul(const Poly &a, const Poly &b) {
        if (a.size() * b.size() > 60 * limit) throw TooBig();
        Poly r;
        for (auto &s : a)
            for (auto &t : b) addTo(r, mul(s.first, t.first), s.second * t.second);
        if (r.size() > limit) throw TooBig();
        return r;
    }
    bool divide(const Poly &p0, const Poly &f, Poly &q) {
        q.clear();
        if (p0.empty()) return true;
        Mono m;
        if (!div(p0.begin()->first, f.begin()->first, m) || !div(p0.rbegin()->first, f.rbegin()->first, m)) return false;
        Poly p = p0;
        while (!p.empty()) {
            if (!div(p.begin()->first, f.begin()->first, m)) return false;
            mpq_class c = p.begin()->second / f.begin()->second;
            q.emplace(m, c);
            if (q.size() > p0.size() + 200) return false;
            for (auto &t : f) addTo(p, mul(t.first, m), mpq_class(-c * t.second));
        }
        return true;
    }
    static bool isConst(const Poly &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
    // registers a polynomial as a factor; its leading coefficient is returned in lc
    int factor(const Poly &p, mpq_class &lc) {
        lc = p.begin()->second;
        Poly q;
        for (auto &t : p) q.emplace(t.first, t.second / lc);
        auto it = findex.find(q);
        if (it != findex.end()) return it->second;
        factors.push_back(q);
        return findex[q] = (int)factors.size() - 1;
    }
    static RF constant(const mpq_class &c) {
        RF r;
        if (c != 0) r.n.emplace(Mono(), c);
        return r;
    }
    static RF atom(uint32_t v) {
        RF r;
        r.n.emplace(Mono{v}, 1);
        return r;
    }
    void cancel(RF &r) {
        if (r.n.empty()) { r.d.clear(); return; }
        for (auto it = r.d.begin(); it != r.d.end();) {
            Poly q;
            while (it->second > 0 && divide(r.n, factors[it->first], q)) { r.n.swap(q); it->second--; }
            if (it->second == 0) it = r.d.erase(it);
            else ++it;
        }
    }
    // replaces squares of atoms with known squares
    RF reduce(RF r) {
        if (!square.empty() || !pairs.empty()) {
            for (int guard = 0; guard < 200; guard++) {
                uint32_t v = 0;
                bool any = false;
                for (auto &t : r.n)
                    for (size_t i = 1; i < t.first.size(); i++)
                        if (t.first[i] == t.first[i - 1] && square.count(t.first[i]) && (!any || t.first[i] > v)) v = t.first[i], any = true;
                if (!any) {
                    bool done = false;
                    for (auto &pr : pairs) {
                        Poly a, b;
                        Mono q{pr.first.first, pr.first.second}, m;
                        for (auto &t : r.n)
                            if (div(t.first, q, m)) b.emplace(m, t.second);
                            else a.insert(t);
                        if (b.empty()) continue;
                        RF A, B;
                        A.n = a, B.n = b;
                        RF s = addRaw(A, mulRaw(B, *pr.second), 1);
                        for (auto &f : r.d) s.d[f.first] += f.second;
                        r = s;
                        done = true;
                        break;
                    }
                    if (done) continue;
                    break;
                }
                Poly a, b;
                for (auto &t : r.n) {
                    auto p = std::lower_bound(t.first.begin(), t.first.end(), v);
                    if (p != t.first.end() && *p == v && p + 1 != t.first.end() && p[1] == v) {
                        Mono m(t.first.begin(), p);
                        m.insert(m.end(), p + 2, t.first.end());
                        b.emplace(m, t.second);
                    } else a.insert(t);
                }
                RF A, B;
                A.n = a;
                B.n = b;
                RF s = addRaw(A, mulRaw(B, *square[v]), 1);
                for (auto &f : r.d) s.d[f.first] += f.second;
                r = s;
            }
        }
        cancel(r);
        for (auto it = r.d.begin(); it != r.d.end(); ++it) { // squares in the denominator
            const Poly &f = factors[it->first];
            if (it->second < 2 || f.size() != 1 || f.begin()->first.size() != 1) continue;
            auto k = square.find(f.begin()->first[0]);
            if (k == square.end()) continue;
            RF s = *k->second;
            int e = it->second / 2;
            if (it->second % 2) it->second = 1;
            else r.d.erase(it);
            for (int i = 0; i < e; i++) r = div(r, s); // reduces again
            break;
        }
        return r;
    }
    RF addRaw(const RF &a, const RF &b, int sign) {
        RF r;
        if (a.d == b.d) {
            r.n = add(a.n, b.n, sign);
            r.d = a.d;
        } else {
            std::map<int, int> l = a.d;
            for (auto &f : b.d) l[f.first] = std::max(l[f.first], f.second);
            Poly x = a.n, y = b.n;
            for (auto &f : l) {
                auto i = a.d.find(f.first), j = b.d.find(f.first);
                int ea = f.second - (i == a.d.end() ? 0 : i->second), eb = f.second - (j == b.d.end() ? 0 : j->second);
                for (int k = 0; k < ea; k++) x = mul(x, factors[f.first]);
                for (int k = 0; k < eb; k++) y = mul(y, factors[f.first]);
            }
            r.n = add(x, y, sign);
            r.d = l;
        }
        return r;
    }
    RF mulRaw(const RF &a, const RF &b) {
        RF r;
        r.n = mul(a.n, b.n);
        r.d = a.d;
        for (auto &f : b.d) r.d[f.first] += f.second;
        return r;
    }
    RF add(const RF &a, const RF &b, int sign) { return reduce(addRaw(a, b, sign)); }
    RF mul(const RF &a, const RF &b) { return reduce(mulRaw(a, b)); }
    // a / b; b is not the zero polynomial
    RF div(const RF &a, const RF &b) {
        RF r = a;
        for (auto &f : b.d)
            for (int k = 0; k < f.second; k++) r.n = mul(r.n, factors[f.first]);
        mpq_class lc;
        // the common monomial becomes one factor per atom
        Mono g = b.n.begin()->first;
        for (auto &t : b.n) {
            Mono h;
            std::set_intersection(g.begin(), g.end(), t.first.begin(), t.first.end(), std::back_inserter(h));
            g.swap(h);
        }
        for (uint32_t v : g) {
            Poly p;
            p.emplace(Mono{v}, 1);
            mpq_class one;
            r.d[factor(p, one)]++;
        }
        Poly q;
        for (auto &t : b.n) {
            Mono m;
            div(t.first, g, m);
            q.emplace(m, t.second);
        }
        if (isConst(q)) lc = q.begin()->second;
        else r.d[factor(q, lc)]++;
        for (auto &t : r.n) t.second /= lc;
        return reduce(r);
    }
    // certainly not negative, seen from its form
    bool nonneg(const Poly &p) {
        for (auto &t : p) {
            if (t.second < 0) return false;
            for (size_t i = 0; i < t.first.size();) {
                size_t j = i;
                while (j < t.first.size() && t.first[j] == t.first[i]) j++;
                if ((j - i) % 2 && !positive.count(t.first[i])) return false;
                i = j;
            }
        }
        return true;
    }
};
