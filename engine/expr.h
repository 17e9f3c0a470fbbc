// Hash-consed symbolic expressions: bit-vectors (1..128 bits) and IEEE floats.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    O_CONST, O_SYM,
    // bit-vector
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
    // float
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FSQRT, O_FABS, O_FMA,
    O_FFLOOR, O_FCEIL, O_FTRUNC, O_FRINT, O_FROUND,
    O_FEQ, O_FLT, O_FLE, O_FUNO, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPCONV, O_BVOFFP, O_FPOFBV,
    O_UF,   // uninterpreted function (float args / result); aux = name index
    O_NOPS
};
enum Sort : uint8_t { S_BV, S_FP };

enum FpMode { FP_REAL, FP_IEEE };
extern FpMode g_fpmode;
extern bool g_exact; // real arithmetic also where both operands are constants and the result would be rounded
bool inexactF(Op op, double x, double y, int w);

struct Expr {
    Op op;
    Sort sort;
    uint16_t width; // bits; floats: 32, 64 or 80
    uint32_t id;
    uint32_t aux; // extract low bit, symbol index, UF index
    uint32_t nk;
    u128 val;       // constant
    Expr *k[4];
    uint64_t hash;
    int32_t symset; // cached symbol-set id, -1 unknown
    bool isConst() const { return op == O_CONST; }
    uint64_t c() const { return (uint64_t)val; }
};

extern std::vector<Expr *> g_exprs; // by id
struct SymInfo {
    std::string name;
    long idx;
    Sort sort;
    int width;
    Expr *e;
};
extern std::vector<SymInfo> g_syms;
extern std::vector<std::string> g_ufs;

Expr *mkConst(u128 v, int width, Sort s = S_BV);
Expr *mkSym(const std::string &name, long idx, Sort s, int width);
Expr *mk1(Op op, Expr *a, int width, Sort s, uint32_t aux = 0);
Expr *mkBin(Op op, Expr *a, Expr *b); // bv arithmetic/logic
Expr *mkCmp(Op op, Expr *a, Expr *b); // EQ ULT ULE SLT SLE -> bv1
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot(Expr *a); // bv1
Expr *mkAnd(Expr *a, Expr *b);
Expr *mkOr(Expr *a, Expr *b);
Expr *mkZext(Expr *a, int w);
Expr *mkSext(Expr *a, int w);
Expr *mkExtract(Expr *a, int lo, int w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkF2(Op op, Expr *a, Expr *b);
Expr *mkF1(Op op, Expr *a);
Expr *mkFma(Expr *a, Expr *b, Expr *c);
Expr *mkFcmp(Op op, Expr *a, Expr *b);
Expr *mkToFP(Expr *a, int width, bool isSigned);
Expr *mkFPConv(Expr *a, int width);
Expr *mkFPToInt(Expr *a, int width, bool isSigned);
Expr *mkBits(Expr *fp);            // FP -> BV
Expr *mkFPofBits(Expr *bv);        // BV -> FP
Expr *mkUF(const std::string &name, std::vector<Expr *> args, int width);
std::string showExpr(Expr *e, int depth = 6);
const std::vector<uint32_t> &symsOf(Expr *e);

double constF(const Expr *e);
u128 bitsOfF(double d, int width);
inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, int w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}
