#pragma once
#include "expr.h"
#include <map>
enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };
struct Model {
    std::map<uint32_t, u128> bits;   // symbol -> bits (BV, or IEEE image of the float value)
    bool exact = true;               // all values exactly representable
};
struct SmtStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0;
    double seconds = 0;
    double maxSeconds = 0;
};
extern SmtStats g_smt;
extern unsigned g_timeoutMs;
extern bool g_normal; // rational normal form of real terms
extern int g_round;    // doubles are integers, sums are rounded: exact up to 2^(53 + g_round); 0 = real arithmetic
// is the conjunction satisfiable?  (model optional)
SatRes smtCheck(const std::vector<Expr *> &cs, Model *m, unsigned timeoutMs = 0);
// evaluate under a model (missing symbols = 0)
u128 evalExpr(Expr *e, const Model &m);
void smtInit();
// is the disjunction of t != t over the given terms unsatisfiable?
bool smtSame(const std::vector<Expr *> &ts);

