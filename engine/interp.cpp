// Symbolic execution of the decoded program.
#include "interp.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <cstring>
#include <cmath>
#include <chrono>
#include <algorithm>
using namespace llvm;

Options opt;
Stats st;
Engine E;
static std::chrono::steady_clock::time_point tStart = std::chrono::steady_clock::now();
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

// ------------------------------------------------------------------ memory
Obj *Obj::make(uint32_t size) {
    Obj *o = (Obj *)malloc(sizeof(Obj) + size + 16);
    o->rc = 0;
    o->size = size;
    o->readonly = o->freed = o->heap = o->watched = false;
    o->b = (uint8_t *)(o + 1);
    o->sym = nullptr;
    return o;
}
Obj *Obj::clone() const {
    Obj *o = make(size);
    o->readonly = readonly;
    o->freed = freed;
    o->heap = heap;
    o->watched = watched;
    memcpy(o->b, b, size);
    if (sym) {
        o->sym = (uint32_t *)malloc(4 * (size_t)size + 4);
        memcpy(o->sym, sym, 4 * (size_t)size);
    }
    return o;
}
void Obj::ensureSym() {
    if (!sym) sym = (uint32_t *)calloc(size + 1, 4);
}
void ObjRef::drop() {
    if (p && --p->rc == 0) {
        if (p->sym) free(p->sym);
        free(p);
    }
    p = nullptr;
}
Mem::Mem(const Mem &m) : ch(m.ch), next(m.next) {
    for (auto c : ch) if (c) c->rc++;
}
Mem::~Mem() {
    for (auto c : ch) if (c && --c->rc == 0) delete c;
}
ObjRef &Mem::slot(uint32_t id) {
    uint32_t c = id / CHUNK;
    if (c >= ch.size()) ch.resize(c + 1, nullptr);
    if (!ch[c]) ch[c] = new Chunk;
    else if (ch[c]->rc > 1) {
        Chunk *n = new Chunk;
        for (int i = 0; i < CHUNK; i++) n->o[i] = ch[c]->o[i];
        ch[c]->rc--;
        ch[c] = n;
    }
    return ch[c]->o[id % CHUNK];
}

static void initConst(Engine &E, Obj *o, const Constant *C, uint64_t off, int rank) {
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
    Type *t = C->getType();
    if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
        StringRef r = cds->getRawDataValues();
        memcpy(o->b + off, r.data(), r.size());
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(C)) {
        auto *sl = E.DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(E, o, cs->getOperand(i), off + sl->getElementOffset(i), rank);
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(C)) {
        uint64_t es = E.DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(E, o, ca->getOperand(i), off + i * es, rank);
        return;
    }
    std::vector<Val> v;
    E.constLeaves(C, rank, v);
    auto &L = E.ti(t)->leaves;
    for (size_t i = 0; i < v.size(); i++) {
        u128 x = v[i].e ? v[i].e->val : (u128)v[i].c;
        memcpy(o->b + off + L[i].off, &x, L[i].bytes);
    }
}

Obj *Engine::materialise(uint32_t id) {
    uint32_t ng = globals.size();
    if (id == 0 || id > (uint32_t)opt.nranks * ng) return nullptr;
    int rank = (id - 1) / ng;
    const GlobalVariable *g = globals[(id - 1) % ng];
    uint64_t sz = DL->getTypeAllocSize(g->getValueType());
    if (!g->hasInitializer() && sz < 8) sz = 8;
    if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 256);
    Obj *o = Obj::make(sz);
    memset(o->b, 0, sz);
    if (g->hasInitializer()) initConst(*this, o, g->getInitializer(), 0, rank);
    o->readonly = g->isConstant();
    S->mem.slot(id) = ObjRef(o);
    return o;
}
uint64_t Engine::alloc(uint64_t size, bool heap, int fill) {
    if (size > (1ULL << 30)) throw Abort{"memory", "allocation of " + std::to_string(size) + " bytes", true};
    uint32_t id = S->mem.next++;
    Obj *o = Obj::make(size);
    o->heap = heap;
    memset(o->b, fill < 0 ? opt.fill : fill, size);
    S->mem.slot(id) = ObjRef(o);
    return addrOf(id);
}
void Engine::freeObj(uint64_t addr) {
    if (!addr) return;
    uint32_t id = addr >> 32;
    Obj *o = S->mem.get(id);
    if (!o || (uint32_t)addr != OBJ_BIAS || !o->heap) throw Abort{"memory", "invalid or double free", true};
    if (o->watched)
        for (auto &w : S->watches)
            if (w.live && w.obj == id) throw Abort{"mpi-buffer", "buffer of a pending MPI operation is freed", true};
    S->mem.slot(id) = ObjRef();
}
static void badAccess(Engine &E, uint64_t addr, uint64_t n, bool write) {
    char buf[200];
    snprintf(buf, sizeof buf, "invalid %s of %llu bytes at %llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr);
    throw Abort{"memory", buf, true};
}
Obj *Engine::objAt(uint64_t addr, uint64_t n, bool write, uint32_t &off) {
    uint32_t id = addr >> 32;
    Obj *o = S->mem.get(id);
    if (!o) {
        o = materialise(id);
        if (!o) badAccess(*this, addr, n, write);
    }
    off = (uint32_t)addr - (uint32_t)OBJ_BIAS;
    if ((uint64_t)off + n > o->size) {
        char buf[200];
        snprintf(buf, sizeof buf, "out-of-bounds %s of %llu bytes at offset %d of an object of %u bytes", write ? "write" : "read",
                 (unsigned long long)n, (int)off, o->size);
        throw Abort{"memory", buf, true};
    }
    if (o->watched)
        for (auto &w : S->watches)
            if (w.live && w.obj == id && off < w.off + w.len && w.off < off + n && (write || w.mode == 2))
                throw Abort{"mpi-buffer", std::string(write ? "write to" : "read of") + " the buffer of a pending MPI " + (w.mode == 2 ? "receive" : "send"), true};
    if (S->omp.on) {
        int t = S->omp.tid, ep = S->omp.epoch + 1;
        bool crit = S->omp.inCrit > 0;
        for (uint64_t a = addr; a < addr + n; a++) {
            auto &x = S->omp.acc[a];
            for (int u = 0; u < 4; u++) {
                if (u == t) continue;
                uint8_t c[4] = {x.w[u], write ? x.r[u] : (uint8_t)0, x.wc[u], write ? x.rc[u] : (uint8_t)0};
                for (int k = 0; k < 4; k++) {
                    if (!c[k]) continue;
                    if (c[k] > ep) throw Abort{"engine", "OpenMP threads communicate across a barrier in an order that is not modelled", false};
                    if (c[k] == ep && !(crit && k >= 2))
                        throw Abort{"omp-race", "two OpenMP threads access the same memory without synchronisation, one of them writing", true};
                }
            }
            (write ? crit ? x.wc : x.w : crit ? x.rc : x.r)[t] = (uint8_t)ep;
        }
    }
    if (write) {
        if (o->readonly) throw Abort{"memory", "write to constant memory" + (id <= (uint32_t)opt.nranks * globals.size() ? " " + globals[(id - 1) % globals.size()]->getName().str() : std::string()), true};
        uint32_t c = id / CHUNK;
        if (S->mem.ch[c]->rc > 1 || o->rc > 1) {
            ObjRef &r = S->mem.slot(id);
            if (r.p->rc > 1) r = ObjRef(r.p->clone());
            o = r.p;
        }
    }
    return o;
}
void Engine::readBytes(uint64_t addr, uint64_t n, uint8_t *b, std::vector<uint32_t> &sym) {
    sym.clear();
    if (!n) return;
    uint32_t off;
    Obj *o = objAt(addr, n, false, off);
    memcpy(b, o->b + off, n);
    if (o->sym) {
        bool any = false;
        for (uint64_t i = 0; i < n; i++)
            if (o->sym[off + i]) { any = true; break; }
        if (any) sym.assign(o->sym + off, o->sym + off + n);
    }
}
void Engine::writeBytes(uint64_t addr, uint64_t n, const uint8_t *b, const std::vector<uint32_t> &sym) {
    if (!n) return;
    uint32_t off;
    Obj *o = objAt(addr, n, true, off);
    memcpy(o->b + off, b, n);
    if (!sym.empty()) {
        o->ensureSym();
        memcpy(o->sym + off, sym.data(), 4 * n);
    } else if (o->sym)
        memset(o->sym + off, 0, 4 * n);
}
static Expr *byteExpr(uint32_t s, uint8_t conc) {
    if (!s) return mkConst(conc, 8);
    Expr *e = g_exprs[s >> 4];
    if (e->sort == S_FP) e = mkBits(e);
    if (e->width < 8) e = mkZext(e, 8);
    return mkExtract(e, 8 * (s & 15), 8);
}
static Val loadFrom(Engine &E, const uint8_t *b, const uint32_t *sym, const Leaf &l) {
    unsigned n = l.bytes;
    bool any = false;
    if (sym)
        for (unsigned i = 0; i < n; i++)
            if (sym[i]) { any = true; break; }
    if (!any) {
        if (l.bits <= 64) {
            uint64_t v = 0;
            memcpy(&v, b, n);
            if (l.bits < 64) v &= (1ULL << l.bits) - 1;
            return Val{v, nullptr};
        }
        u128 v = 0;
        memcpy(&v, b, n);
        return Val{0, mkConst(v & maskw(l.bits), l.bits, l.kind == 1 ? S_FP : S_BV)};
    }
    uint32_t s0 = sym[0];
    if ((s0 & 15) == 0 && s0) {
        Expr *e = g_exprs[s0 >> 4];
        bool same = e->width == n * 8;
        for (unsigned i = 1; same && i < n; i++) same = sym[i] == s0 + i;
        if (same) {
            if (l.kind == 1) e = e->sort == S_FP ? e : mkFPofBits(e);
            else {
                e = e->sort == S_FP ? mkBits(e) : e;
                if (l.bits < n * 8) e = mkExtract(e, 0, l.bits);
            }
            return E.fromExpr(e);
        }
    }
    Expr *r = byteExpr(sym[0], b[0]);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteExpr(sym[i], b[i]), r);
    if (l.bits < n * 8) r = mkExtract(r, 0, l.bits);
    if (l.kind == 1) r = mkFPofBits(r);
    return E.fromExpr(r);
}
Val Engine::loadLeaf(uint64_t addr, const Leaf &l) {
    uint32_t off;
    Obj *o = objAt(addr + l.off, l.bytes, false, off);
    return loadFrom(*this, o->b + off, o->sym ? o->sym + off : nullptr, l);
}
void Engine::storeLeaf(uint64_t addr, const Leaf &l, const Val &v) {
    uint32_t off;
    Obj *o = objAt(addr + l.off, l.bytes, true, off);
    if (!v.e) {
        memcpy(o->b + off, &v.c, l.bytes <= 8 ? l.bytes : 8);
        if (o->sym) memset(o->sym + off, 0, 4 * l.bytes);
        return;
    }
    Expr *e = v.e;
    if (e->isConst()) {
        memcpy(o->b + off, &e->val, l.bytes);
        if (o->sym) memset(o->sym + off, 0, 4 * l.bytes);
        return;
    }
    if (e->width < l.bytes * 8) e = mkZext(e->sort == S_FP ? mkBits(e) : e, l.bytes * 8);
    if (e->isConst()) { storeLeaf(addr, l, Val{(uint64_t)e->val, l.bits > 64 ? e : nullptr}); return; }
    o->ensureSym();
    for (unsigned i = 0; i < l.bytes; i++) {
        o->sym[off + i] = e->id << 4 | i;
        o->b[off + i] = 0;
    }
}
std::string Engine::cstr(uint64_t addr) {
    std::string s;
    Leaf l{0, 8, 0, 1};
    for (;;) {
        Val v = loadLeaf(addr + s.size(), l);
        char ch = (char)cval(v, "string");
        if (!ch) return s;
        s += ch;
        if (s.size() > 1000000) throw Abort{"engine", "string too long", false};
    }
}

// ------------------------------------------------------------------ path condition
static bool allKnown(State *S, Expr *e, Model &m) {
    for (uint32_t x : symsOf(e)) {
        auto it = S->known.find(g_syms[x].e);
        if (it == S->known.end()) return false;
        m.bits[x] = it->second;
    }
    return true;
}
Expr *Engine::expr(const Val &v, int bits, int kind) {
    if (!v.e) return mkConst(v.c, bits, kind == 1 ? S_FP : S_BV);
    if (kind == 1) return v.e->sort == S_FP ? v.e : mkFPofBits(v.e);
    return v.e->sort == S_FP ? mkBits(v.e) : v.e;
}
Val Engine::fromExpr(Expr *e) {
    if (e->isConst()) {
        if (e->width <= 64) return Val{(uint64_t)e->val, nullptr};
        return Val{0, e};
    }
    if (!S->known.empty()) {
        auto it = S->known.find(e);
        if (it != S->known.end()) {
            if (e->width <= 64) return Val{(uint64_t)it->second, nullptr};
            return Val{0, mkConst(it->second, e->width, e->sort)};
        }
        if (e->sort == S_BV && e->width <= 64) {
            Model m;
            if (!g_exact && allKnown(S, e, m)) return Val{(uint64_t)evalExpr(e, m), nullptr};
        }
    }
    return Val{0, e};
}
void Engine::addPc(Expr *c) {
    if (c->isConst()) {
        if (!c->val) throw Abort{"infeasible", "", false};
        return;
    }
    if (c->op == O_AND && c->width == 1) { addPc(c->k[0]); addPc(c->k[1]); return; }
    if (S->known.count(c) && S->known[c]) return;
    S->pc.push_back(c);
    S->known[c] = 1;
    if (c->op == O_EQ) {
        if (c->k[1]->isConst()) S->known[c->k[0]] = c->k[1]->val;
        else if (c->k[0]->isConst()) S->known[c->k[1]] = c->k[0]->val;
    }
    if (c->op == O_XOR && c->k[1]->isConst()) {
        S->known[c->k[0]] = 0;
        Expr *n = c->k[0]; // not(a or b)
        if (n->op == O_OR && n->width == 1) { addPc(mkNot(n->k[0])); addPc(mkNot(n->k[1])); }
    }
}
SatRes Engine::query(Expr *cond, Model *m, unsigned ms) {
    // cone of influence of cond in the path condition
    std::unordered_set<uint32_t> syms;
    for (uint32_t x : symsOf(cond)) syms.insert(x);
    std::vector<Expr *> cs;
    std::vector<char> used(S->pc.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < S->pc.size(); i++) {
            if (used[i]) continue;
            auto &sv = symsOf(S->pc[i]);
            bool hit = false;
            for (uint32_t x : sv) if (syms.count(x)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            changed = true;
            cs.push_back(S->pc[i]);
            for (uint32_t x : sv) syms.insert(x);
        }
    }
    cs.push_back(cond);
    return smtCheck(cs, m, ms);
}
SatRes Engine::queryAll(Expr *cond, Model *m) {
    std::vector<Expr *> cs = S->pc;
    if (cond) cs.push_back(cond);
    return smtCheck(cs, m);
}
bool Engine::feasible(Expr *cond) { return query(cond, nullptr) != R_UNSAT; }

State *Engine::fork() {
    flushChecks();
    st.forks++;
    if (work.size() > 20000) throw Abort{"engine", "too many pending paths", false};
    State *n = new State(*S);
    work.push_back(n);
    return n;
}
static void addPcTo(Engine &E, State *n, Expr *c) {
    State *sv = E.S;
    E.S = n;
    E.addPc(c);
    E.S = sv;
}
bool Engine::branch(Expr *cond) {
    if (cond->isConst()) return cond->val != 0;
    auto it = S->known.find(cond);
    if (it != S->known.end()) return it->second != 0;
    Expr *nc = mkNot(cond);
    it = S->known.find(nc);
    if (it != S->known.end()) return it->second == 0;
    Model km;
    if (!g_exact && allKnown(S, cond, km)) return evalExpr(cond, km) != 0;
    SatRes rt = query(cond, nullptr, opt.branchMs);
    if (rt == R_UNKNOWN) st.unknownBranch++;
    if (rt == R_UNSAT) { S->known[cond] = 0; return false; }
    SatRes rf = query(nc, nullptr, opt.branchMs);
    if (rf == R_UNKNOWN) st.unknownBranch++;
    if (rf == R_UNSAT) { S->known[cond] = 1; return true; }
    State *n = fork();
    addPcTo(*this, n, nc);
    addPc(cond);
    return true;
}
u128 Engine::concretize(Expr *e, const char *why) {
    if (e->isConst()) return e->val;
    auto it = S->known.find(e);
    if (it != S->known.end()) return it->second;
    Model km;
    if (allKnown(S, e, km)) return evalExpr(e, km);
    static const bool dbg = getenv("HSYM_FORKDBG");
    if (dbg) fprintf(stderr, "concretize (%s) at %s\n", why, where().c_str());
    if (e->sort == S_FP) {
        throw Abort{"engine", std::string("a symbolic float must be made concrete (") + why + ")", false};
    }
    // a value from the constraints that share symbols with e
    std::vector<Expr *> cs;
    std::unordered_set<uint32_t> syms;
    for (uint32_t x : symsOf(e)) syms.insert(x);
    std::vector<char> used(S->pc.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < S->pc.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (uint32_t x : symsOf(S->pc[i])) if (syms.count(x)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            changed = true;
            cs.push_back(S->pc[i]);
            for (uint32_t x : symsOf(S->pc[i])) syms.insert(x);
        }
    }
    Model mm;
    SatRes rr = smtCheck(cs, &mm);
    if (rr == R_UNSAT) throw Abort{"infeasible", "", false};
    if (rr == R_UNKNOWN) { st.unknownBranch++; throw Abort{"engine", "solver gave no value for a symbolic index", false}; }
    u128 v = evalExpr(e, mm);
    Expr *eq = mkCmp(O_EQ, e, mkConst(v, e->width));
    Expr *ne = mkNot(eq);
    SatRes other = query(ne, nullptr);
    if (other == R_UNSAT) { S->known[e] = v; return v; }
    State *n = fork();
    addPcTo(*this, n, ne);
    addPc(eq);
    S->known[e] = v;
    return v;
}
std::vector<u128> Engine::values(Expr *e, unsigned limit, bool &complete) {
    std::vector<u128> out;
    complete = false;
    Expr *blk = mkConst(1, 1);
    while (out.size() < limit) {
        Model m;
        // the query must mention e so that its symbols are in the model
        SatRes r;
        if (out.empty()) {
            Expr *t = mkSym("!probe", e->width, S_BV, e->width);
            r = query(mkCmp(O_EQ, e, t), &m);
        } else
            r = query(blk, &m);
        if (r == R_UNSAT) { complete = true; break; }
        if (r == R_UNKNOWN) { st.unknownBranch++; break; }
        u128 v = evalExpr(e, m);
        out.push_back(v);
        blk = mkAnd(blk, mkNot(mkCmp(O_EQ, e, mkConst(v, e->width))));
    }
    if (out.size() == limit && query(blk, nullptr) == R_UNSAT) complete = true;
    return out;
}
uint64_t Engine::cval(const Val &v, const char *why) {
    if (!v.e) return v.c;
    return (uint64_t)concretize(v.e->sort == S_FP ? mkBits(v.e) : v.e, why);
}

// ------------------------------------------------------------------ checks
std::string Engine::where() {
    std::string r;
    if (S->procs.empty()) return r;
    Proc &p = S->procs[S->cur];
    if (opt.nranks > 1) r = "rank " + std::to_string(p.rank) + ": ";
    int k = 0;
    for (int i = (int)p.st.size() - 1; i >= 0 && k < 12; i--) {
        Frame &f = p.st[i];
        if (f.pc >= f.f->code.size()) continue;
        auto *I = f.f->code[f.pc].I;
        std::string nm = demangle(f.f->name);
        if (nm.size() > 90) nm = nm.substr(0, 90) + "..";
        if (k) r += " < ";
        r += nm;
        if (auto &dl = I->getDebugLoc()) {
            std::string fn = dl->getFilename().str();
            size_t s = fn.rfind('/');
            r += "@" + (s == std::string::npos ? fn : fn.substr(s + 1)) + ":" + std::to_string(dl->getLine());
        }
        k++;
    }
    return r;
}
void Engine::violation(const std::string &kind, const std::string &msg, Expr *extra, const std::string &at) {
    Model m;
    SatRes r = queryAll(extra, &m);
    if (r == R_UNSAT) { st.infeasible++; return; }
    if (r == R_UNKNOWN) {
        st.unknownChecks++;
        st.incomplete = true;
        st.incompleteWhy = "solver undecided on: " + msg + " at " + where();
        return;
    }
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = at.empty() ? where() : at;
    v.model = m;
    v.have = true;
    // values fixed by the path but not in the model
    for (auto &kv : S->known)
        if (kv.first->op == O_SYM && !v.model.bits.count(kv.first->aux)) v.model.bits[kv.first->aux] = kv.second;
    // the same complaint at the same place: once
    auto head = [](const std::string &x) { return x.substr(0, x.find(':')); };
    for (auto &o : viols)
        if (o.kind == v.kind && head(o.msg) == head(v.msg) && o.where == v.where) { st.repeated++; if (st.repeated > 200) throw Abort{"stop", "", false}; return; }
    viols.push_back(v);
}
void Engine::check(Expr *cond, const std::string &msg, Expr *weak) {
    st.checks++;
    if (cond->isConst()) {
        if (cond->val) { st.checksConcrete++; return; }
        violation("assert", msg);
        throw Abort{"ended", "", false};
    }
    S->pend.push_back({cond, msg, where(), weak});
    if (S->pend.size() > 5000) flushChecks();
}
void Engine::flushChecks() {
    if (!S->ident.empty()) { // both sides are the same term: one trivially valid query for the lot
        std::vector<Expr *> v;
        v.swap(S->ident);
        if (!smtSame(v)) throw Abort{"engine", "solver disagrees on syntactic identity", false};
    }
    if (S->pend.empty()) return;
    auto pd = std::move(S->pend);
    S->pend.clear();
    std::unordered_set<Expr *> done;
    for (auto &c : pd) {
        if (!done.insert(c.cond).second) continue;
        auto it = S->known.find(c.cond);
        if (it != S->known.end() && it->second) continue;
        // an identity does not need the path condition
        if (opt.branchMs && smtCheck({mkNot(c.cond)}, nullptr, opt.branchMs) == R_UNSAT) continue;
        SatRes r = query(mkNot(c.cond), nullptr);
        if (r == R_UNSAT) continue;
        Expr *broken = mkNot(c.cond);
        if (c.weak) { // differs, or undecided: is there a difference beyond rounding?
            SatRes rw = c.weak->isConst() ? (c.weak->val ? R_UNSAT : R_SAT) : query(mkNot(c.weak), nullptr);
            if (rw == R_UNSAT) { st.checksWeak++; continue; }
            r = rw;
            broken = mkNot(c.weak);
        }
        if (r == R_UNKNOWN) {
            st.unknownChecks++;
            st.incomplete = true;
            st.incompleteWhy = "solver undecided on: " + c.msg + " at " + c.where;
            continue;
        }
        violation("assert", c.msg, broken, c.where);
        if ((int)viols.size() >= opt.maxViolations) throw Abort{"stop", "", false};
    }
}
void Engine::pathEnd() {
    flushChecks();
    for (auto &r : S->reached) reachedEver.insert(r);
}
// all processes have ended: no message may be under way, no transfer pending
void Engine::checkQuiet() {
    for (auto &c : S->chans) {
        auto &k = c.first;
        if (c.second.got >= c.second.msgs.size()) continue;
        S->cur = (size_t)k[1] < S->procs.size() ? k[1] : 0;
        throw Abort{"mpi-leftover", (k[0] < 0 ? std::string("a collective operation was entered by rank ") + std::to_string(k[1]) + " and not by rank " + std::to_string(k[2])
                                              : "a message from rank " + std::to_string(k[1]) + " to rank " + std::to_string(k[2]) + " tag " + std::to_string(k[3]) + " was never received"), true};
    }
    for (auto &w : S->watches)
        if (w.live) {
            S->cur = w.rank;
            throw Abort{"mpi-leftover", std::string("a ") + (w.mode == 2 ? "receive" : "send") + " of rank " + std::to_string(w.rank) + " was never completed", true};
        }
}

// ------------------------------------------------------------------ execution
void Engine::pushCall(Proc &p, DFunc *f, const CallInfo &ci, const std::vector<Val> &args) {
    p.st.emplace_back();
    Frame &n = p.st.back();
    n.f = f;
    n.r.resize(f->nregs);
    n.pc = 0;
    n.contEdge = -1;
    n.dst = -1;
    n.nret = 0;
    uint32_t k = 0;
    for (size_t i = 0; i < f->argBase.size() && k < args.size(); i++) {
        uint32_t nl = i < ci.nleaf.size() ? ci.nleaf[i] : 1;
        for (uint32_t j = 0; j < nl; j++) n.r[f->argBase[i] + j] = args[k++];
    }
    f->calls_made++;
    if (p.st.size() > 3000) throw Abort{"memory", "stack overflow (recursion)", true};
}

static inline uint64_t mk(unsigned w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t ofF(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

static Val binop(Engine &E, unsigned op, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, r = 0, m = mk(w);
        switch (op) {
        case O_ADD: r = x + y; break;
        case O_SUB: r = x - y; break;
        case O_MUL: r = x * y; break;
        case O_UDIV: if (!y) throw Abort{"arith", "division by zero", true}; r = x / y; break;
        case O_UREM: if (!y) throw Abort{"arith", "division by zero", true}; r = x % y; break;
        case O_SDIV:
            if (!y) throw Abort{"arith", "division by zero", true};
            if (sx(y, w) == -1) r = 0 - x; else r = (uint64_t)(sx(x, w) / sx(y, w));
            break;
        case O_SREM:
            if (!y) throw Abort{"arith", "division by zero", true};
            if (sx(y, w) == -1) r = 0; else r = (uint64_t)(sx(x, w) % sx(y, w));
            break;
        case O_SHL: r = y >= w ? 0 : x << y; break;
        case O_LSHR: r = y >= w ? 0 : x >> y; break;
        case O_ASHR: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
        case O_AND: r = x & y; break;
        case O_OR: r = x | y; break;
        case O_XOR: r = x ^ y; break;
        }
        return Val{r & m, nullptr};
    }
    Expr *x = E.expr(a, w, 0), *y = E.expr(b, w, 0);
    if (op == O_UDIV || op == O_UREM || op == O_SDIV || op == O_SREM) {
        if (!y->isConst()) {
            if (E.branch(mkCmp(O_EQ, y, mkConst(0, w)))) throw Abort{"arith", "division by zero", true};
            Val yv = E.fromExpr(y);
            y = E.expr(yv, w, 0);
        } else if (!y->val) throw Abort{"arith", "division by zero", true};
    }
    return E.fromExpr(mkBin((Op)op, x, y));
}
static Val fbin(Engine &E, unsigned op, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e && !(g_exact && ((w == 64 && inexactF((Op)op, asD(a.c), asD(b.c), 64)) || (w == 32 && inexactF((Op)op, asF(a.c), asF(b.c), 32))))) {
        if (w == 64) {
            double x = asD(a.c), y = asD(b.c), r = 0;
            switch (op) {
            case O_FADD: r = x + y; break;
            case O_FSUB: r = x - y; break;
            case O_FMUL: r = x * y; break;
            case O_FDIV: r = x / y; break;
            case O_FREM: r = fmod(x, y); break;
            }
            return Val{ofD(r), nullptr};
        }
        if (w == 32) {
            float x = asF(a.c), y = asF(b.c), r = 0;
            switch (op) {
            case O_FADD: r = x + y; break;
            case O_FSUB: r = x - y; break;
            case O_FMUL: r = x * y; break;
            case O_FDIV: r = x / y; break;
            case O_FREM: r = fmodf(x, y); break;
            }
            return Val{ofF(r), nullptr};
        }
    }
    return E.fromExpr(mkF2((Op)op, E.expr(a, w, 1), E.expr(b, w, 1)));
}
static Val icmp(Engine &E, unsigned pr, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c;
        bool r = false;
        switch (pr) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break;
        case CmpInst::ICMP_SGE: r = sx(x, w) >= sx(y, w); break;
        case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break;
        case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break;
        }
        return Val{r, nullptr};
    }
    Expr *x = E.expr(a, w, 0), *y = E.expr(b, w, 0), *r = nullptr;
    switch (pr) {
    case CmpInst::ICMP_EQ: r = mkCmp(O_EQ, x, y); break;
    case CmpInst::ICMP_NE: r = mkNot(mkCmp(O_EQ, x, y)); break;
    case CmpInst::ICMP_UGT: r = mkCmp(O_ULT, y, x); break;
    case CmpInst::ICMP_UGE: r = mkCmp(O_ULE, y, x); break;
    case CmpInst::ICMP_ULT: r = mkCmp(O_ULT, x, y); break;
    case CmpInst::ICMP_ULE: r = mkCmp(O_ULE, x, y); break;
    case CmpInst::ICMP_SGT: r = mkCmp(O_SLT, y, x); break;
    case CmpInst::ICMP_SGE: r = mkCmp(O_SLE, y, x); break;
    case CmpInst::ICMP_SLT: r = mkCmp(O_SLT, x, y); break;
    case CmpInst::ICMP_SLE: r = mkCmp(O_SLE, x, y); break;
    }
    return E.fromExpr(r);
}
static Val fcmp(Engine &E, unsigned pr, unsigned w, const Val &a, const Val &b) {
    if (pr == CmpInst::FCMP_FALSE) return Val{0, nullptr};
    if (pr == CmpInst::FCMP_TRUE) return Val{1, nullptr};
    if (!a.e && !b.e && w <= 64) {
        double x = w == 64 ? asD(a.c) : asF(a.c), y = w == 64 ? asD(b.c) : asF(b.c);
        bool u = std::isnan(x) || std::isnan(y), r = false;
        switch (pr) {
        case CmpInst::FCMP_OEQ: r = !u && x == y; break;
        case CmpInst::FCMP_ONE: r = !u && x != y; break;
        case CmpInst::FCMP_OLT: r = !u && x < y; break;
        case CmpInst::FCMP_OLE: r = !u && x <= y; break;
        case CmpInst::FCMP_OGT: r = !u && x > y; break;
        case CmpInst::FCMP_OGE: r = !u && x >= y; break;
        case CmpInst::FCMP_ORD: r = !u; break;
        case CmpInst::FCMP_UNO: r = u; break;
        case CmpInst::FCMP_UEQ: r = u || x == y; break;
        case CmpInst::FCMP_UNE: r = u || x != y; break;
        case CmpInst::FCMP_ULT: r = u || x < y; break;
        case CmpInst::FCMP_ULE: r = u || x <= y; break;
        case CmpInst::FCMP_UGT: r = u || x > y; break;
        case CmpInst::FCMP_UGE: r = u || x >= y; break;
        }
        return Val{r, nullptr};
    }
    Expr *x = E.expr(a, w, 1), *y = E.expr(b, w, 1), *r = nullptr;
    switch (pr) {
    case CmpInst::FCMP_OEQ: r = mkFcmp(O_FEQ, x, y); break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(mkFcmp(O_FUNO, x, y)), mkNot(mkFcmp(O_FEQ, x, y))); break;
    case CmpInst::FCMP_OLT: r = mkFcmp(O_FLT, x, y); break;
    case CmpInst::FCMP_OLE: r = mkFcmp(O_FLE, x, y); break;
    case CmpInst::FCMP_OGT: r = mkFcmp(O_FLT, y, x); break;
    case CmpInst::FCMP_OGE: r = mkFcmp(O_FLE, y, x); break;
    case CmpInst::FCMP_ORD: r = mkNot(mkFcmp(O_FUNO, x, y)); break;
    case CmpInst::FCMP_UNO: r = mkFcmp(O_FUNO, x, y); break;
    case CmpInst::FCMP_UEQ: r = mkOr(mkFcmp(O_FUNO, x, y), mkFcmp(O_FEQ, x, y)); break;
    case CmpInst::FCMP_UNE: r = mkNot(mkFcmp(O_FEQ, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(mkFcmp(O_FLE, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(mkFcmp(O_FLT, y, x)); break;
    case CmpInst::FCMP_UGT: r = mkNot(mkFcmp(O_FLE, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(mkFcmp(O_FLT, x, y)); break;
    }
    return E.fromExpr(r);
}
static Val castv(Engine &E, unsigned oc, unsigned w, unsigned w2, unsigned fl, const Val &a) {
    bool conc = !a.e && w <= 64 && w2 <= 64;
    switch (oc) {
    case Instruction::Trunc:
        if (conc) return Val{a.c & mk(w2), nullptr};
        return E.fromExpr(mkExtract(E.expr(a, w, 0), 0, w2));
    case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (w == w2) return a;
        if (conc) return Val{w2 < w ? a.c & mk(w2) : a.c, nullptr};
        return E.fromExpr(w2 < w ? mkExtract(E.expr(a, w, 0), 0, w2) : mkZext(E.expr(a, w, 0), w2));
    case Instruction::SExt:
        if (conc) return Val{(uint64_t)sx(a.c, w) & mk(w2), nullptr};
        return E.fromExpr(mkSext(E.expr(a, w, 0), w2));
    case Instruction::FPTrunc: case Instruction::FPExt:
        if (conc) {
            if (w == 64) return Val{ofF((float)asD(a.c)), nullptr};
            return Val{ofD((double)asF(a.c)), nullptr};
        }
        return E.fromExpr(mkFPConv(E.expr(a, w, 1), w2));
    case Instruction::FPToSI: case Instruction::FPToUI: {
        return E.fromExpr(mkFPToInt(E.expr(a, w, 1), w2, oc == Instruction::FPToSI));
    }
    case Instruction::SIToFP:
        if (conc) {
            int64_t v = sx(a.c, w);
            return Val{w2 == 64 ? ofD((double)v) : ofF((float)v), nullptr};
        }
        return E.fromExpr(mkToFP(E.expr(a, w, 0), w2, true));
    case Instruction::UIToFP:
        if (conc) return Val{w2 == 64 ? ofD((double)a.c) : ofF((float)a.c), nullptr};
        return E.fromExpr(mkToFP(E.expr(a, w, 0), w2, false));
    default: // bitcast, addrspacecast of equal layout
        return a;
    }
}

static void popFrame(Engine &E, Proc &p) {
    Frame &f = p.st.back();
    for (int i = (int)f.allocas.size() - 1; i >= 0; i--) {
        uint32_t id = f.allocas[i];
        E.S->mem.slot(id) = ObjRef();
        if (E.S->mem.next == id + 1 && !E.S->omp.on) E.S->mem.next--;
    }
    p.st.pop_back();
}

// symbolic address: enumerate
static void symAccess(Engine &E, Expr *addr, std::vector<u128> &vals, uint64_t size, bool write) {
    bool complete;
    vals = E.values(addr, 1024, complete);
    if (!complete) throw Abort{"engine", "symbolic address with too many values", false};
    std::vector<u128> ok;
    for (u128 v : vals) {
        try {
            uint32_t off;
            E.objAt((uint64_t)v, size, write, off);
            ok.push_back(v);
        } catch (Abort &a) {
            if (!a.viol) throw;
            E.violation(a.kind, a.msg, mkCmp(O_EQ, addr, mkConst(v, 64)));
            if ((int)E.viols.size() >= opt.maxViolations) throw Abort{"stop", "", false};
            E.addPc(mkNot(mkCmp(O_EQ, addr, mkConst(v, 64))));
        }
    }
    vals = ok;
    if (vals.empty()) throw Abort{"infeasible", "", false};
}

std::vector<u128> Engine::readableValues(Expr *addr, uint64_t n) {
    std::vector<u128> v;
    symAccess(*this, addr, v, n, false);
    return v;
}
bool Engine::stepProc(Proc &p0) {
    uint64_t n = 0;
    const int pi = S->cur;
    Proc &p = S->procs[pi];
    (void)p0;
    p.blocked = false;
    Frame *f;
    Val *R;
    const Val *C;
    const DInst *code;
reload:
    f = &p.st.back();
    R = f->r.data();
    C = cpoolFor(f->f, p.rank).data();
    code = f->f->code.data();
#define V(o) ((o) >= 0 ? R[o] : C[~(o)])
    auto take = [&](uint32_t ei) {
        const Edge &e = f->f->edges[ei];
        size_t m = e.moves.size();
        if (m == 1) R[e.moves[0].first] = V(e.moves[0].second);
        else if (m) {
            Val tmp[16];
            std::vector<Val> big;
            Val *t = tmp;
            if (m > 16) { big.resize(m); t = big.data(); }
            for (size_t i = 0; i < m; i++) t[i] = V(e.moves[i].second);
            for (size_t i = 0; i < m; i++) R[e.moves[i].first] = t[i];
        }
        f->pc = f->f->blockStart[e.target];
    };
    for (;;) {
        const DInst &I = code[f->pc];
        n++;
        if ((n & 0xfffff) == 0) {
            st.steps += n;
            S->steps += n;
            n = 1;
            if (S->steps > opt.maxSteps) throw Abort{"engine", "step limit", false};
            if (elapsed() > opt.maxSeconds) throw Abort{"engine", "time limit", false};
        }
        switch (I.op) {
        case D_NOP: f->pc++; break;
        case D_BIN:
            if (I.n == 1) R[I.dst] = binop(*this, I.sub, I.w, V(I.a), V(I.b));
            else {
                Val t[64];
                for (uint32_t i = 0; i < I.n; i++) t[i] = binop(*this, I.sub, I.w, I.a >= 0 ? R[I.a + i] : C[~I.a + i], I.b >= 0 ? R[I.b + i] : C[~I.b + i]);
                for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = t[i];
            }
            f->pc++;
            break;
#define L(o, i) ((o) >= 0 ? R[(o) + (i)] : C[~(o) + (i)])
        case D_FBIN:
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = fbin(*this, I.sub, I.w, L(I.a, i), L(I.b, i));
            f->pc++;
            break;
        case D_FNEG:
            for (uint32_t i = 0; i < I.n; i++) {
                Val a = L(I.a, i);
                if (!a.e && I.w <= 64) R[I.dst + i] = Val{a.c ^ (1ULL << (I.w - 1)), nullptr};
                else R[I.dst + i] = fromExpr(mkF1(O_FNEG, expr(a, I.w, 1)));
            }
            f->pc++;
            break;
        case D_ICMP:
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = icmp(*this, I.sub, I.w, L(I.a, i), L(I.b, i));
            f->pc++;
            break;
        case D_FCMP:
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = fcmp(*this, I.sub, I.w, L(I.a, i), L(I.b, i));
            f->pc++;
            break;
        case D_CAST:
            if (I.n == I.ext) {
                for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = castv(*this, I.sub, I.w, I.w2, I.flags, L(I.a, i));
            } else {
                // bitcast between vectors of different element counts
                std::vector<Val> t;
                if (I.w2 > I.w) {
                    unsigned k = I.ext / I.n;
                    for (uint32_t i = 0; i < I.n; i++) {
                        bool conc = I.w2 <= 64;
                        for (unsigned j = 0; j < k && conc; j++) conc = !L(I.a, i * k + j).e;
                        if (conc) {
                            uint64_t v = 0;
                            for (unsigned j = 0; j < k; j++) v |= L(I.a, i * k + j).c << (j * I.w);
                            t.push_back(Val{v, nullptr});
                        } else {
                            Expr *e = expr(L(I.a, i * k), I.w, 0);
                            for (unsigned j = 1; j < k; j++) e = mkConcat(expr(L(I.a, i * k + j), I.w, 0), e);
                            if ((I.flags & 1)) e = mkFPofBits(e);
                            t.push_back(fromExpr(e));
                        }
                    }
                } else {
                    unsigned k = I.n / I.ext;
                    for (uint32_t i = 0; i < I.ext; i++)
                        for (unsigned j = 0; j < k; j++) {
                            Val a = L(I.a, i);
                            if (!a.e) t.push_back(Val{(a.c >> (j * I.w2)) & mk(I.w2), nullptr});
                            else {
                                Expr *e = mkExtract(expr(a, I.w, 0), j * I.w2, I.w2);
                                if ((I.flags & 1)) e = mkFPofBits(e);
                                t.push_back(fromExpr(e));
                            }
                        }
                }
                for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = t[i];
            }
            f->pc++;
            break;
        case D_SELECT: {
            TypeInfo *t = f->f->tis[I.ext];
            std::vector<Val> out(I.n);
            for (uint32_t i = 0; i < I.n; i++) {
                Val c = (I.flags & 1) ? L(I.a, i) : V(I.a);
                if (!c.e) out[i] = c.c ? L(I.b, i) : L(I.c, i);
                else {
                    const Leaf &l = t->leaves[i];
                    Val x = L(I.b, i), y = L(I.c, i);
                    if (x.e == y.e && (x.e || x.c == y.c)) out[i] = x;
                    else if (l.kind == 2 || opt.forkSelect) out[i] = branch(c.e) ? x : y;
                    else out[i] = fromExpr(mkIte(c.e, expr(x, l.bits, l.kind), expr(y, l.bits, l.kind)));
                }
            }
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = out[i];
            f->pc++;
            break;
        }
        case D_LOAD: {
            TypeInfo *t = f->f->tis[I.ext];
            Val a = V(I.a);
            if (a.e) {
                Model km;
                Expr *ae = expr(a, 64, 0);
                if (S->known.count(ae) || allKnown(S, ae, km)) a = Val{cval(a, "address"), nullptr};
            }
            if (!a.e) {
                uint32_t off;
                if (I.n == 1 && t->leaves[0].off == 0) {
                    const Leaf &l = t->leaves[0];
                    Obj *o = objAt(a.c, l.bytes, false, off);
                    if (!o->sym && l.bits <= 64) {
                        uint64_t v = 0;
                        memcpy(&v, o->b + off, l.bytes);
                        if (l.bits < 64) v &= (1ULL << l.bits) - 1;
                        R[I.dst] = Val{v, nullptr};
                    } else
                        R[I.dst] = loadFrom(*this, o->b + off, o->sym ? o->sym + off : nullptr, l);
                } else
                    for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = loadLeaf(a.c, t->leaves[i]);
            } else {
                Expr *ae = expr(a, 64, 0);
                bool hasPtr = false;
                for (auto &l : t->leaves) hasPtr |= l.kind == 2;
                if (hasPtr) {
                    uint64_t v = cval(a, "address of a pointer");
                    for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = loadLeaf(v, t->leaves[i]);
                } else {
                    std::vector<u128> vals;
                    symAccess(*this, ae, vals, t->size, false);
                    for (uint32_t i = 0; i < I.n; i++) {
                        const Leaf &l = t->leaves[i];
                        Expr *r = expr(loadLeaf((uint64_t)vals[0], l), l.bits, l.kind);
                        for (size_t k = 1; k < vals.size(); k++)
                            r = mkIte(mkCmp(O_EQ, ae, mkConst(vals[k], 64)), expr(loadLeaf((uint64_t)vals[k], l), l.bits, l.kind), r);
                        R[I.dst + i] = fromExpr(r);
                    }
                }
            }
            f->pc++;
            break;
        }
        case D_STORE: {
            TypeInfo *t = f->f->tis[I.ext];
            Val a = V(I.b);
            if (a.e) {
                Model km;
                Expr *ae = expr(a, 64, 0);
                if (S->known.count(ae) || allKnown(S, ae, km)) a = Val{cval(a, "address"), nullptr};
            }
            if (!a.e) {
                for (uint32_t i = 0; i < I.n; i++) storeLeaf(a.c, t->leaves[i], L(I.a, i));
            } else {
                Expr *ae = expr(a, 64, 0);
                std::vector<u128> vals;
                symAccess(*this, ae, vals, t->size, true);
                if (vals.size() == 1) {
                    for (uint32_t i = 0; i < I.n; i++) storeLeaf((uint64_t)vals[0], t->leaves[i], L(I.a, i));
                } else
                    for (u128 v : vals) {
                        Expr *c = mkCmp(O_EQ, ae, mkConst(v, 64));
                        for (uint32_t i = 0; i < I.n; i++) {
                            const Leaf &l = t->leaves[i];
                            Val old = loadLeaf((uint64_t)v, l);
                            storeLeaf((uint64_t)v, l, fromExpr(mkIte(c, expr(L(I.a, i), l.bits, l.kind), expr(old, l.bits, l.kind))));
                        }
                    }
            }
            f->pc++;
            break;
        }
        case D_ALLOCA: {
            uint64_t cnt = cval(V(I.a), "alloca size");
            uint64_t a = alloc(cnt * I.ext, false);
            f->allocas.push_back(a >> 32);
            R[I.dst] = Val{a, nullptr};
            f->pc++;
            break;
        }
        case D_GEP: {
            const GepInfo &g = f->f->geps[I.ext];
            Val b = V(I.a);
            bool sym = b.e != nullptr;
            for (auto &t : g.terms) sym |= V(t.op).e != nullptr;
            if (!sym) {
                uint64_t r = b.c + g.off;
                for (auto &t : g.terms) r += (uint64_t)(sx(V(t.op).c, t.w) * t.scale);
                R[I.dst] = Val{r, nullptr};
            } else {
                Expr *r = mkBin(O_ADD, expr(b, 64, 0), mkConst((uint64_t)g.off, 64));
                for (auto &t : g.terms) {
                    Val v = V(t.op);
                    Expr *x = expr(v, t.w, 0);
                    if (t.w < 64) x = mkSext(x, 64);
                    else if (t.w > 64) x = mkExtract(x, 0, 64);
                    r = mkBin(O_ADD, r, mkBin(O_MUL, x, mkConst((uint64_t)t.scale, 64)));
                }
                R[I.dst] = fromExpr(r);
            }
            f->pc++;
            break;
        }
        case D_BR: take(I.ext); break;
        case D_CBR: {
            Val c = V(I.a);
            bool b = c.e ? branch(c.e) : (c.c & 1);
            take(b ? I.ext : (uint32_t)I.b);
            break;
        }
        case D_SWITCH: {
            const SwitchInfo &s = f->f->sw[I.ext];
            Val c = V(I.a);
            uint64_t v;
            if (c.e) {
                // branch case by case, default last
                bool done = false;
                for (auto &k : s.cases)
                    if (branch(mkCmp(O_EQ, expr(c, I.w, 0), mkConst(k.first, I.w)))) { take(k.second); done = true; break; }
                if (!done) take(s.def);
                break;
            }
            v = c.c;
            uint32_t e = s.def;
            for (auto &k : s.cases) if ((uint64_t)k.first == v) { e = k.second; break; }
            take(e);
            break;
        }
        case D_RET: {
            uint32_t k = I.n;
            Val tmp[16];
            std::vector<Val> big;
            Val *t = tmp;
            if (k > 16) { big.resize(k); t = big.data(); }
            for (uint32_t i = 0; i < k; i++) t[i] = L(I.a, i);
            int32_t dst = f->dst, ce = f->contEdge;
            popFrame(*this, p);
            if (p.st.empty()) {
                p.exited = true;
                p.code = k ? (int)t[0].c : 0;
                st.steps += n;
                S->steps += n;
                return true;
            }
            f = &p.st.back();
            if (f->tid >= 0 && f->pc == 0) { S->omp.tid = f->tid; S->omp.epoch = 0; }
            if (S->omp.on) {
                bool any = false;
                for (auto &fr : p.st) any |= fr.tid >= 0;
                if (!any) { S->omp.on = false; S->omp.acc.clear(); S->omp.tid = 0; }
            }
            if (dst >= 0)
                for (uint32_t i = 0; i < k; i++) f->r[dst + i] = t[i];
            R = f->r.data();
            C = cpoolFor(f->f, p.rank).data();
            code = f->f->code.data();
            if (ce >= 0) take(ce);
            break;
        }
        case D_UNREACH: throw Abort{"unreachable", "unreachable code executed", true};
        case D_COPY:
            if (I.n == 1) R[I.dst] = V(I.a);
            else {
                std::vector<Val> t(I.n);
                for (uint32_t i = 0; i < I.n; i++) t[i] = L(I.a, i);
                for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = t[i];
            }
            f->pc++;
            break;
        case D_INSERT:
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = (i >= I.ext && i < I.ext + I.w) ? L(I.b, i - I.ext) : L(I.a, i);
            f->pc++;
            break;
        case D_EXTELT: {
            Val ix = V(I.b);
            uint64_t k = cval(ix, "vector index");
            R[I.dst] = L(I.a, k < I.n ? k : 0);
            f->pc++;
            break;
        }
        case D_INSELT: {
            uint64_t k = cval(V(I.c), "vector index");
            Val v = V(I.b);
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = i == k ? v : L(I.a, i);
            f->pc++;
            break;
        }
        case D_SHUF: {
            auto &m = f->f->shufs[I.ext];
            std::vector<Val> t(I.n);
            for (uint32_t i = 0; i < I.n; i++) t[i] = m[i] < 0 ? Val{0, nullptr} : m[i] < I.w ? L(I.a, m[i]) : L(I.b, m[i] - I.w);
            for (uint32_t i = 0; i < I.n; i++) R[I.dst + i] = t[i];
            f->pc++;
            break;
        }
        case D_ATOMICRMW: {
            uint64_t a = cval(V(I.a), "atomic address");
            const Leaf &l = f->f->tis[I.ext]->leaves[0];
            int svc = S->omp.inCrit;
            S->omp.inCrit = 1;
            Val old = loadLeaf(a, l), b = V(I.b), nw = b;
            switch (I.sub) {
            case AtomicRMWInst::Xchg: break;
            case AtomicRMWInst::Add: nw = binop(*this, O_ADD, I.w, old, b); break;
            case AtomicRMWInst::Sub: nw = binop(*this, O_SUB, I.w, old, b); break;
            case AtomicRMWInst::And: nw = binop(*this, O_AND, I.w, old, b); break;
            case AtomicRMWInst::Or: nw = binop(*this, O_OR, I.w, old, b); break;
            case AtomicRMWInst::Xor: nw = binop(*this, O_XOR, I.w, old, b); break;
            case AtomicRMWInst::FAdd: nw = fbin(*this, O_FADD, I.w, old, b); break;
            default: S->omp.inCrit = svc; throw Abort{"engine", "atomicrmw", false};
            }
            storeLeaf(a, l, nw);
            S->omp.inCrit = svc;
            R[I.dst] = old;
            f->pc++;
            break;
        }
        case D_CMPXCHG: {
            uint64_t a = cval(V(I.a), "atomic address");
            const Leaf &l = f->f->tis[I.ext]->leaves[0];
            int svc = S->omp.inCrit;
            S->omp.inCrit = 1;
            Val old = loadLeaf(a, l);
            Val eq = icmp(*this, CmpInst::ICMP_EQ, I.w, old, V(I.b));
            bool t = eq.e ? branch(eq.e) : eq.c;
            if (t) storeLeaf(a, l, V(I.c));
            S->omp.inCrit = svc;
            R[I.dst] = old;
            R[I.dst + 1] = Val{t, nullptr};
            f->pc++;
            break;
        }
        case D_CALL: {
            CallInfo &ci = f->f->calls[I.ext];
            const Function *callee = ci.callee;
            DFunc *df = ci.df;
            ExtFn ext = ci.ext;
            std::string nm;
            if (!callee) {
                uint64_t fa = cval(V(ci.fnop), "function pointer");
                callee = fnAt(fa);
                if (!callee) throw Abort{"memory", "call through an invalid function pointer", true};
                if (callee->isDeclaration()) ext = lookupExt(callee->getName().str(), callee), df = nullptr;
                else {
                    ext = lookupExt(callee->getName().str(), callee);
                    df = ext ? nullptr : decode(callee);
                }
            } else if (!ci.extLooked) {
                ci.extLooked = true;
                ci.ext = ext = lookupExt(callee->getName().str(), callee);
                if (!ext && !callee->isDeclaration()) ci.df = df = decode(callee);
            }
            if (df) {
                DFunc *cf = df;
                // arguments
                p.st.emplace_back();
                f = &p.st[p.st.size() - 2]; // vector may have moved
                R = f->r.data();
                Frame &nf = p.st.back();
                nf.f = cf;
                nf.r.resize(cf->nregs);
                nf.pc = 0;
                nf.dst = I.dst;
                nf.nret = ci.nret;
                nf.contEdge = ci.contEdge;
                for (size_t i = 0; i < ci.args.size() && i < cf->argBase.size(); i++)
                    for (uint32_t j = 0; j < ci.nleaf[i]; j++) nf.r[cf->argBase[i] + j] = L(ci.args[i], j);
                // by-value aggregates are copied by the callee's caller in our ABI: byval pointer
                for (size_t i = 0; i < ci.args.size() && i < cf->argBase.size(); i++)
                    if (cf->F->hasParamAttribute(i, Attribute::ByVal)) {
                        uint64_t sz = DL->getTypeAllocSize(cf->F->getParamByValType(i));
                        uint64_t src = cval(nf.r[cf->argBase[i]], "byval");
                        uint64_t d = alloc(sz, false);
                        std::vector<uint8_t> buf(sz);
                        std::vector<uint32_t> sy;
                        readBytes(src, sz, buf.data(), sy);
                        writeBytes(d, sz, buf.data(), sy);
                        nf.r[cf->argBase[i]] = Val{d, nullptr};
                        nf.allocas.push_back(d >> 32);
                    }
                cf->calls_made++;
                if (p.st.size() > 5000) throw Abort{"memory", "stack overflow (recursion)", true};
                f->pc++; // return lands after the call (or contEdge)
                goto reload;
            }
            if (!ext) {
                unsupported[callee->getName().str()]++;
                throw Abort{"engine", "call to unmodelled function " + demangle(callee->getName().str()), false};
            }
            ExtCall x{*this, p, *f, ci, I, {}, {}, ci.nret, {}};
            for (size_t i = 0; i < ci.args.size(); i++)
                for (uint32_t j = 0; j < ci.nleaf[i]; j++) x.a.push_back(L(ci.args[i], j));
            x.name = callee->getName().str();
            int rc = ext(x);
            if (rc == X_BLOCK) {
                p.blocked = true;
                st.steps += n;
                S->steps += n;
                return n > 1;
            }
            if (rc == X_NORETURN) {
                st.steps += n;
                S->steps += n;
                return true;
            }
            if (rc == X_PUSHED) {
                // frames were pushed; the caller continues after this instruction
                goto reload;
            }
            if (I.dst >= 0)
                for (uint32_t i = 0; i < ci.nret; i++) R[I.dst + i] = x.ret[i];
            if (ci.contEdge >= 0) take(ci.contEdge);
            else f->pc++;
            break;
        }
        default: {
            std::string s;
            raw_string_ostream os(s);
            I.I->print(os);
            throw Abort{"engine", "instruction not supported: " + s, false};
        }
        }
    }
}

void Engine::runState() {
    for (;;) {
        bool prog = false, all = true;
        for (size_t i = 0; i < S->procs.size(); i++) {
            if (S->procs[i].exited) continue;
            all = false;
            S->cur = i;
            if (stepProc(S->procs[i])) prog = true;
        }
        if (all) break;
        if (!prog) {
            std::string who;
            for (auto &p : S->procs)
                if (!p.exited) who += (who.empty() ? "" : "; ") + std::string("rank ") + std::to_string(p.rank) + " in " + p.blockedOn;
            bool someExit = false;
            for (auto &p : S->procs) someExit |= p.exited;
            for (auto &p : S->procs) if (!p.exited) { S->cur = p.rank; break; }
            throw Abort{"deadlock", "no process can progress: " + who + (someExit ? " (others have finished)" : ""), true};
        }
        if (elapsed() > opt.maxSeconds) throw Abort{"engine", "time limit", false};
    }
    checkQuiet();
    pathEnd();
}

void Engine::run() {
    State *s0 = new State;
    S = s0;
    S->mem.next = 1 + opt.nranks * globals.size();
    // per process: constructors, then main
    const Function *mainF = M->getFunction("hs_main");
    if (!mainF) mainF = M->getFunction("main");
    if (!mainF) throw Abort{"engine", "no main", false};
    std::vector<std::pair<uint64_t, const Function *>> ctors;
    if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
        if (g->hasInitializer())
            if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &o : ca->operands()) {
                    auto *cs = cast<ConstantStruct>(o);
                    if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                        ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
                }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (int r = 0; r < opt.nranks; r++) {
        S->procs.emplace_back();
        Proc &p = S->procs.back();
        p.rank = r;
        S->cur = r;
        CallInfo ci;
        std::vector<Val> args;
        if (mainF->arg_size() >= 2) {
            uint64_t av = alloc(8 * (opt.argv.size() + 2), true, 0);
            for (size_t i = 0; i <= opt.argv.size(); i++) {
                std::string s = i ? opt.argv[i - 1] : "hs";
                uint64_t a = alloc(s.size() + 1, true, 0);
                writeBytes(a, s.size() + 1, (const uint8_t *)s.c_str(), {});
                storeLeaf(av + 8 * i, Leaf{0, 64, 2, 8}, Val{a, nullptr});
            }
            args = {Val{opt.argv.size() + 1, nullptr}, Val{av, nullptr}};
            ci.nleaf = {1, 1};
        }
        pushCall(p, decode(mainF), ci, args);
        CallInfo none;
        for (int i = (int)ctors.size() - 1; i >= 0; i--) pushCall(p, decode(ctors[i].second), none, {});
    }
    work.push_back(s0);
    while (!work.empty()) {
        S = work.back();
        work.pop_back();
        st.paths++;
        bool stop = false;
        try {
            if (st.paths > opt.maxPaths) throw Abort{"engine", "path limit", false};
            runState();
        } catch (Abort &a) {
            if (a.viol) {
                try { flushChecks(); } catch (Abort &) {}
                violation(a.kind, a.msg);
            } else if (a.kind == "engine") {
                st.incomplete = true;
                if (st.incompleteWhy.empty()) st.incompleteWhy = a.msg + " at " + where();
                try { flushChecks(); } catch (Abort &) {}
                if (a.msg == "time limit" || a.msg == "path limit" || a.msg == "too many pending paths") stop = true;
            } else if (a.kind == "stop") stop = true;
            else if (a.kind == "exit-ok") {
                try { pathEnd(); } catch (Abort &) {}
            } else if (a.kind == "infeasible") st.infeasible++;
            else if (a.kind == "ended") {
                for (auto &r : S->reached) reachedEver.insert(r);
            }
        }
        delete S;
        S = nullptr;
        if ((int)viols.size() >= opt.maxViolations) stop = true;
        if (stop) {
            for (auto w : work) delete w;
            if (!work.empty() && viols.empty()) st.incomplete = true;
            work.clear();
        }
    }
}

void Engine::init(Module *m) {
    M = m;
    DL = &m->getDataLayout();
    for (auto &g : m->globals()) {
        gIds[&g] = globals.size();
        globals.push_back(&g);
    }
}
