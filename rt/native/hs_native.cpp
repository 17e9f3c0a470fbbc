// Native implementation of the harness interface: values come from a model file, failed checks end the run.
#include "hs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <string>
#include <unistd.h>
#ifndef HS_NO_MPI
#include <mpi.h>
#endif
static std::map<std::pair<std::string, long>, std::string> *model;
static std::map<std::string, std::string> *params;
static void load() {
    if (model) return;
    model = new std::map<std::pair<std::string, long>, std::string>;
    params = new std::map<std::string, std::string>;
    const char *f = getenv("HS_MODEL");
    FILE *in = f ? fopen(f, "r") : nullptr;
    char kind[16], name[256], val[256];
    long idx;
    while (in && fscanf(in, "%15s %255s %ld %255s", kind, name, &idx, val) == 4) {
        if (!strcmp(kind, "v")) (*model)[{name, idx}] = val;
        else (*params)[name] = val;
    }
    if (in) fclose(in);
}
static int rank() {
#ifdef HS_NO_MPI
    return 0;
#else
    int i = 0, r = 0;
    MPI_Initialized(&i);
    if (i) MPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
#endif
}
static void fail(const char *msg, const char *detail) {
    fprintf(stderr, "HS_FAIL rank %d: %s %s\n", rank(), msg, detail);
    fflush(stderr);
    usleep(200000);
    _exit(97);
}
static double clampd(double v, double lo, double hi) { return lo > hi ? v : v < lo ? lo : v > hi ? hi : v; }
extern "C" {
double hs_f64(const char *name, long idx, double lo, double hi) {
    load();
    auto it = model->find({name, idx});
    return it == model->end() ? clampd(0, lo, hi) : strtod(it->second.c_str(), nullptr);
}
float hs_f32(const char *name, long idx, double lo, double hi) {
    load();
    auto it = model->find({std::string(name) + "#f", idx});
    return it == model->end() ? (float)clampd(0, lo, hi) : strtof(it->second.c_str(), nullptr);
}
long hs_int(const char *name, long idx, long lo, long hi) {
    load();
    auto it = model->find({std::string(name) + "#i", idx});
    return it == model->end() ? (lo > 0 ? lo : hi < 0 ? hi : 0) : strtol(it->second.c_str(), nullptr, 10);
}
long hs_choose(const char *name, long idx, long lo, long hi) { return hs_int(name, idx, lo, hi); }
void hs_assume(int c) {
    if (!c) { fprintf(stderr, "HS_ASSUME\n"); _exit(98); }
}
void hs_check(int c, const char *msg) { if (!c) fail(msg, ""); }
static void eq(double a, double b, double tol, const char *msg) {
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b))) return;
    char buf[100];
    snprintf(buf, sizeof buf, "(%.17g vs %.17g)", a, b);
    fail(msg, buf);
}
void hs_eq_f64(double a, double b, const char *msg) { eq(a, b, 1e-9, msg); }
void hs_eq_f32(float a, float b, const char *msg) { eq(a, b, 1e-4, msg); }
void hs_same_f64(double a, double b, const char *msg) {
    if (!(memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)))) eq(a, b, a == b ? 1 : 0, msg);
}
void hs_eq_i64(long a, long b, const char *msg) {
    char buf[100];
    snprintf(buf, sizeof buf, "(%ld vs %ld)", a, b);
    if (a != b) fail(msg, buf);
}
void hs_le_f64(double a, double b, const char *msg) {
    char buf[100];
    snprintf(buf, sizeof buf, "(%.17g vs %.17g)", a, b);
    if (!(a <= b + 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) fail(msg, buf);
}
void hs_reach(const char *) {}
long hs_objsize(void *p) { return p ? (long)malloc_usable_size(p) : -1; } // may be more than was asked for
int hs_rank(void) { return rank(); }
int hs_nranks(void) {
#ifdef HS_NO_MPI
    return 1;
#else
    int i = 0, n = 1;
    MPI_Initialized(&i);
    if (i) MPI_Comm_size(MPI_COMM_WORLD, &n);
    else if (getenv("OMPI_COMM_WORLD_SIZE")) n = atoi(getenv("OMPI_COMM_WORLD_SIZE"));
    return n;
#endif
}
void hs_allsum(long *v, long n) {
#ifndef HS_NO_MPI
    MPI_Allreduce(MPI_IN_PLACE, v, (int)n, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
#endif
}
int hs_symbolic(void) { return 0; }
// the generator of the system cannot be controlled: jobs that need it are not replayed natively
void hs_rng_mode(int, int) {}
long hs_rng_count(void) { return 0; }
unsigned long hs_rng_seed(void) { return 0; }
static bool exitOk = false;
void hs_allow_exit(void) { exitOk = true; }
double hs_diff(double, double) { return 0; }
void hs_allow_finish(int on) { exitOk = on != 0; }
void hs_trace(const char *s, long v) { fprintf(stderr, "trace %s %ld\n", s, v); }
const char *hs_param(const char *name, const char *def) {
    load();
    auto it = params->find(name);
    return it == params->end() ? def : it->second.c_str();
}
long hs_parami(const char *name, long def) { return strtol(hs_param(name, std::to_string(def).c_str()), nullptr, 10); }
void hs_main();
}
static bool finished = false;
static void early() {
    if (!finished && !exitOk) { fprintf(stderr, "HS_EXIT early exit\n"); fflush(stderr); _exit(96); }
}
int main() {
    atexit(early);
    hs_main();
    finished = true;
#ifndef HS_NO_MPI
    int i = 0, fi = 0;
    MPI_Initialized(&i);
    MPI_Finalized(&fi);
    if (i && !fi) MPI_Finalize();
#endif
    fprintf(stderr, "HS_OK\n");
    fflush(stderr);
    _exit(0);
}
