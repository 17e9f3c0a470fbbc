// Symbolic interpreter of LLVM IR: state, memory, decoded program.
#pragma once
#include "expr.h"
#include "smt.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <memory>
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>
#include <functional>
#include <unordered_map>
#include <unordered_set>

struct Val {
    uint64_t c;
    Expr *e; // null: concrete value c
};

// ----------------------------------------------------------------- memory objects
struct Obj {
    uint32_t rc;
    uint32_t size;
    bool readonly, freed, heap;
    bool watched;      // part of it is a pending MPI buffer
    uint8_t *b;
    uint32_t *sym;     // per byte: 0 concrete, else (expr id << 4 | byte index)
    static Obj *make(uint32_t size);
    Obj *clone() const;
    void ensureSym();
};
struct ObjRef {
    Obj *p;
    ObjRef() : p(nullptr) {}
    explicit ObjRef(Obj *o) : p(o) { if (p) p->rc++; }
    ObjRef(const ObjRef &o) : p(o.p) { if (p) p->rc++; }
    ObjRef &operator=(const ObjRef &o) {
        if (o.p) o.p->rc++;
        drop();
        p = o.p;
        return *this;
    }
    ~ObjRef() { drop(); }
    void drop();
};
enum { CHUNK = 256 };
struct Chunk {
    uint32_t rc = 1;
    ObjRef o[CHUNK];
};
struct Mem {
    std::vector<Chunk *> ch;
    uint32_t next; // next object id
    Mem() : next(1) {}
    Mem(const Mem &m);
    Mem &operator=(const Mem &) = delete;
    ~Mem();
    ObjRef &slot(uint32_t id); // writable slot (un-shares chunk)
    Obj *get(uint32_t id) const {
        uint32_t c = id / CHUNK;
        if (c >= ch.size() || !ch[c]) return nullptr;
        return ch[c]->o[id % CHUNK].p;
    }
};
static const uint64_t OBJ_BIAS = 0x10000;
inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | OBJ_BIAS; }
static const uint64_t FN_BASE = 0x7f00000000000000ULL;

// ----------------------------------------------------------------- decoded code
struct Leaf {
    uint32_t off;
    uint16_t bits;
    uint8_t kind; // 0 int 1 float 2 ptr
    uint8_t bytes;
};
struct TypeInfo {
    std::vector<Leaf> leaves;
    uint64_t size;
};
enum DOp : uint8_t {
    D_BIN, D_FBIN, D_FNEG, D_ICMP, D_FCMP, D_CAST, D_SELECT, D_LOAD, D_STORE, D_ALLOCA, D_GEP, D_BR, D_CBR, D_SWITCH,
    D_RET, D_UNREACH, D_CALL, D_COPY, D_INSERT, D_SHUF, D_EXTELT, D_INSELT, D_ATOMICRMW, D_CMPXCHG, D_NOP, D_UNSUP
};
struct DFunc;
struct CallInfo;
struct GepTerm { int32_t op; uint16_t w; int64_t scale; };
struct DInst {
    DOp op;
    uint8_t sub;     // Op / predicate / cast opcode
    uint16_t w;      // operand width (bits)
    uint16_t w2;     // result width
    uint16_t flags;
    uint32_t n;      // leaves
    int32_t dst, a, b, c;
    uint32_t ext;
    const llvm::Instruction *I;
};
struct Edge {
    uint32_t target;
    std::vector<std::pair<int32_t, int32_t>> moves; // dst,src (leaf wise)
};
struct SwitchInfo {
    std::vector<std::pair<u128, uint32_t>> cases; // value -> edge
    uint32_t def;
};
struct DBlock {
    uint32_t first;
};
struct ExtCall;
typedef int (*ExtFn)(ExtCall &);
struct CallInfo {
    const llvm::Function *callee; // direct
    DFunc *df;
    ExtFn ext;
    bool extLooked;
    int32_t fnop; // indirect: operand
    std::vector<int32_t> args;
    std::vector<uint32_t> nleaf;
    std::vector<llvm::Type *> tys;
    llvm::Type *retTy;
    uint32_t nret;
    int32_t contEdge; // invoke: normal edge, else -1
};
struct GepInfo {
    int64_t off;
    std::vector<GepTerm> terms;
};
struct DFunc {
    const llvm::Function *F;
    std::string name;
    uint32_t nregs;
    std::vector<DInst> code;
    std::vector<uint32_t> blockStart;
    std::vector<Edge> edges;
    std::vector<SwitchInfo> sw;
    std::vector<CallInfo> calls;
    std::vector<GepInfo> geps;
    std::vector<TypeInfo *> tis;
    std::vector<std::vector<int>> shufs;
    std::vector<std::vector<Val>> cpool; // per rank
    std::vector<const llvm::Constant *> consts;
    std::vector<uint32_t> argBase;
    uint64_t calls_made = 0;
};

// ----------------------------------------------------------------- state
struct Frame {
    DFunc *f;
    std::vector<Val> r;
    uint32_t pc;
    int32_t dst; // caller dst reg
    uint32_t nret;
    int32_t contEdge;
    int tid = -1; // omp thread id if this frame starts a thread
    std::vector<uint32_t> allocas;
};
struct Msg {
    std::vector<uint8_t> b;
    std::vector<uint32_t> sym;
};
struct Chan {
    std::vector<std::shared_ptr<Msg>> msgs;
    uint64_t posted = 0, got = 0;
};
struct Proc {
    int rank;
    std::vector<Frame> st;
    bool exited = false;
    int code = 0;
    bool blocked = false;
    std::string blockedOn;
};
struct SFile {
    std::vector<uint8_t> b;
    std::vector<uint32_t> sym;
};
struct Watch {
    uint32_t obj, off, len;
    int mode; // 1 no write, 2 no access
    int rank;
    bool live;
};
struct PendCheck {
    Expr *cond;
    std::string msg;
    std::string where;
    Expr *weak = nullptr; // holds if the equality holds up to rounding
};
struct OmpTrack {
    bool on = false;
    int tid = 0;
    int inCrit = 0;
    int epoch = 0; // barriers passed by the current thread
    // per byte and thread: last epoch + 1 of a plain / synchronised write / read
    struct Acc {
        uint8_t w[4] = {0, 0, 0, 0}, wc[4] = {0, 0, 0, 0}, r[4] = {0, 0, 0, 0}, rc[4] = {0, 0, 0, 0};
    };
    std::unordered_map<uint64_t, Acc> acc;
};
struct State {
    Mem mem;
    std::vector<Proc> procs;
    int cur = 0;
    std::vector<Expr *> pc;
    std::unordered_map<Expr *, u128> known;
    std::map<std::vector<long>, Chan> chans;
    std::map<std::string, std::shared_ptr<SFile>> files;
    std::vector<Watch> watches;
    std::vector<PendCheck> pend;
    std::vector<Expr *> ident; // terms found on both sides of an equality check
    std::map<std::string, long> counters;
    OmpTrack omp;
    uint64_t steps = 0;
    bool allowExit = false, allowFinish = false;
    int idleRounds = 0;
    std::set<std::string> reached;
    std::map<uint32_t, Val> symSize; // heap blocks of symbolic size
};

struct Violation {
    std::string kind, msg, where;
    Model model;
    bool have = false;
};

struct Options {
    int nranks = 1;
    uint64_t maxSteps = 2000000000ULL; // per path
    uint64_t maxPaths = 1000000;
    double maxSeconds = 600;
    int ompThreads = 3;
    int maxViolations = 1;
    bool verbose = false;
    uint8_t fill = 0xCD;      // what uninitialised memory holds
    bool forkSelect = false;  // both values of a select are followed as separate paths
    unsigned branchMs = 0;    // time limit of branch queries (undecided: both ways are followed)
    std::vector<std::string> argv;
    std::map<std::string, std::string> env;
};
extern Options opt;
extern std::map<std::pair<std::string, long>, std::string> g_fixed; // concrete replay: symbol values
extern bool g_replay;

struct Stats {
    uint64_t paths = 0, steps = 0, forks = 0, checks = 0, checksConcrete = 0, checksIdentical = 0, checksWeak = 0, repeated = 0, infeasible = 0;
    bool incomplete = false;
    std::string incompleteWhy;
    uint64_t unknownBranch = 0, unknownChecks = 0;
};
extern Stats st;

struct Abort { std::string kind, msg; bool viol; }; // C++ exception ending a path

struct Engine {
    llvm::Module *M;
    const llvm::DataLayout *DL;
    State *S = nullptr;
    std::vector<State *> work;
    std::vector<Violation> viols;
    std::unordered_map<const llvm::Function *, DFunc *> dfs;
    std::vector<const llvm::Function *> fnById;
    std::unordered_map<const llvm::Function *, uint32_t> fnIds;
    std::vector<const llvm::GlobalVariable *> globals;
    std::unordered_map<const llvm::GlobalVariable *, uint32_t> gIds;
    std::unordered_map<llvm::Type *, TypeInfo *> tinfo;
    std::set<std::string> reachedEver;
    std::map<std::string, uint64_t> unsupported;

    void init(llvm::Module *m);
    TypeInfo *ti(llvm::Type *t);
    uint32_t nleaves(llvm::Type *t) { return ti(t)->leaves.size(); }
    DFunc *decode(const llvm::Function *F);
    std::vector<Val> &cpoolFor(DFunc *f, int rank);
    void constLeaves(const llvm::Constant *C, int rank, std::vector<Val> &out);
    uint64_t globalAddr(const llvm::GlobalVariable *g, int rank);
    uint64_t fnAddr(const llvm::Function *F);
    const llvm::Function *fnAt(uint64_t a);
    Obj *materialise(uint32_t id);
    uint64_t alloc(uint64_t size, bool heap, int fill = -1); // -1: the content of fresh memory (opt.fill)
    void freeObj(uint64_t addr);
    Obj *objAt(uint64_t addr, uint64_t n, bool write, uint32_t &off); // throws on error
    void readBytes(uint64_t addr, uint64_t n, uint8_t *b, std::vector<uint32_t> &sym); // sym resized (empty if all concrete)
    void writeBytes(uint64_t addr, uint64_t n, const uint8_t *b, const std::vector<uint32_t> &sym);
    Val loadLeaf(uint64_t addr, const Leaf &l);
    void storeLeaf(uint64_t addr, const Leaf &l, const Val &v);
    std::string cstr(uint64_t addr);

    void run();
    void runState();
    bool stepProc(Proc &p); // returns true if progressed; runs until block/exit/fork-out
    State *fork();
    void addPc(Expr *c);
    bool feasible(Expr *cond);                 // may pc && cond hold? (unknown -> true)
    SatRes query(Expr *cond, Model *m, unsigned ms = 0);        // sliced pc && cond
    SatRes queryAll(Expr *cond, Model *m);     // whole pc && cond
    // decide a branch on a symbolic condition; forks if both possible, returns side taken in current state
    bool branch(Expr *cond);
    u128 concretize(Expr *e, const char *why); // forks over all feasible values
    std::vector<u128> values(Expr *e, unsigned limit, bool &complete);
    std::vector<u128> readableValues(Expr *addr, uint64_t n); // all values of a symbolic address; invalid ones are reported
    void flushChecks();
    void check(Expr *cond, const std::string &msg, Expr *weak = nullptr);
    void violation(const std::string &kind, const std::string &msg, Expr *extra = nullptr, const std::string &at = "");
    std::string where();
    Expr *expr(const Val &v, int bits, int kind);
    Val fromExpr(Expr *e);
    uint64_t cval(const Val &v, const char *why); // concrete value, forking if symbolic
    void pathEnd();
    void checkQuiet();
    void pushCall(Proc &p, DFunc *f, const CallInfo &ci, const std::vector<Val> &args);
};
extern Engine E;
extern std::vector<Engine *> dummyEngines;

struct ExtCall {
    Engine &E;
    Proc &P;
    Frame &F;
    CallInfo &ci;
    const DInst &I;
    std::vector<Val> a; // all leaves of args in order
    Val ret[16];
    uint32_t nret;
    std::string name;
    uint64_t u(int i) { return E.cval(a[i], "argument"); }
};
enum { X_OK = 0, X_BLOCK = 1, X_NORETURN = 2, X_PUSHED = 3 };
ExtFn lookupExt(const std::string &name, const llvm::Function *F);
