// Harness interface: the same harness source is executed symbolically by hsym and natively for replays.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
double hs_f64(const char *name, long idx, double lo, double hi); // a symbolic double; bounds are assumed unless lo > hi
float hs_f32(const char *name, long idx, double lo, double hi);
long hs_int(const char *name, long idx, long lo, long hi);       // symbolic integer in [lo,hi]
long hs_choose(const char *name, long idx, long lo, long hi);    // the same, but explored value by value
void hs_assume(int cond);
void hs_check(int cond, const char *msg);
void hs_eq_f64(double a, double b, const char *msg); // equality: exact in IEEE mode, over the reals in REAL mode; relative 1e-9 in replays
void hs_eq_f32(float a, float b, const char *msg);
void hs_same_f64(double a, double b, const char *msg); // bit identity (data movement)
void hs_eq_i64(long a, long b, const char *msg);
void hs_le_f64(double a, double b, const char *msg);
void hs_reach(const char *tag); // vacuity witness
long hs_objsize(void *p); // bytes of the heap block that starts at p, -1 if there is none
int hs_rank(void);
int hs_nranks(void);
void hs_allsum(long *v, long n); // sum over the processes, outside the program under test
int hs_symbolic(void); // 1 under hsym
void hs_allow_exit(void);      // from here on the program may end in any way
double hs_diff(double f, double x); // the derivative of a symbolic expression by a symbol (not in native runs)
void hs_allow_finish(int on);  // it may end in order (exit code 0), or no longer
// random number generator of the runtime (rt/inc/random)
void hs_rng_mode(int mode, int rank); // 0: a fixed sequence, 1: symbolic draws, 2: numbered draws (1 + rank * 100000, ..); restarts the count
long hs_rng_count(void);              // draws since then
unsigned long hs_rng_seed(void);      // the value last passed to seed()
void hs_trace(const char *s, long v);
const char *hs_param(const char *name, const char *def);
long hs_parami(const char *name, long def);
#ifdef __cplusplus
}
#endif
