// MPI on engine channels.  Point-to-point: per (communicator, source, destination, tag) FIFO channels; receives take a
// ticket when they are posted; a blocking send and the completion of a nonblocking send wait until the matching receive
// has been posted (rendezvous: the least buffering the standard allows).  Collectives: every rank contributes when it
// posts, results are combined in rank order; calls of different kind or size that meet are reported.
#include "mpi.h"
#include <cstdlib>
#include <cstring>
#include "../hs.h"
extern "C" {
long __hs_send(long ctx, long src, long dst, long tag, const void *buf, long n);
long __hs_post(long ctx, long src, long dst, long tag);
long __hs_recv(long ctx, long src, long dst, long tag, long ticket, void *buf, long max, const char *what);
void __hs_sync(long ctx, long src, long dst, long tag, long ticket, const char *what);
long __hs_pend(const void *buf, long n, long mode);
void __hs_unpend(long id);
void __hs_fail(const char *kind, const char *msg);
void __hs_exit(int code, int all);
}
struct hs_comm_t { long ctx; int n, rank; int *world; long seq; };
struct hs_req_t {
    int kind; // 1 send 2 recv 3 allreduce 4 reduce 5 barrier
    hs_comm_t *c;
    long src, dst, tag, ticket, n, w1, w2;
    void *buf, *out;
    int type, root;
    hs_op_t *op;
    long cnt;
    bool cancelled;
    MPI_Status st;
};
hs_comm_t hs_world_ = {0, 0, 0, nullptr, 0};
hs_op_t hs_ops_[16] = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 0}, {7, 0}, {8, 0}};
static int next_ctx = 1;
static long user_size[32];
static int n_user = 0;
static void init() {
    if (hs_world_.world) return;
    hs_world_.n = hs_nranks();
    hs_world_.rank = hs_rank();
    hs_world_.world = (int *)malloc(sizeof(int) * hs_world_.n);
    for (int i = 0; i < hs_world_.n; i++) hs_world_.world[i] = i;
}
static long tsize(int t) {
    switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_C_BOOL: case MPI_UNSIGNED_CHAR: case MPI_SIGNED_CHAR: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_INT64_T: case MPI_UINT64_T: case MPI_DOUBLE: case MPI_C_FLOAT_COMPLEX: case MPI_FLOAT_INT: case MPI_2INT: return 8;
    case MPI_LONG_DOUBLE: case MPI_C_DOUBLE_COMPLEX: case MPI_DOUBLE_INT: case MPI_LONG_INT: return 16;
    case MPI_C_LONG_DOUBLE_COMPLEX: case MPI_LONG_DOUBLE_INT: return 32;
    }
    if (t >= MPI_USER_TYPE0 && t < MPI_USER_TYPE0 + n_user) return user_size[t - MPI_USER_TYPE0];
    __hs_fail("mpi-usage", "unknown MPI datatype");
    return 1;
}
template <class T> static void arith(int op, void *inout, const void *in, long n) {
    T *a = (T *)inout;
    const T *b = (const T *)in;
    for (long i = 0; i < n; i++) switch (op) {
        case 0: a[i] = a[i] + b[i]; break;
        case 1: a[i] = a[i] * b[i]; break;
        case 2: if (b[i] > a[i]) a[i] = b[i]; break;
        case 3: if (b[i] < a[i]) a[i] = b[i]; break;
        case 6: a[i] = (a[i] != T(0)) || (b[i] != T(0)); break;
        case 7: a[i] = (a[i] != T(0)) && (b[i] != T(0)); break;
        default: __hs_fail("mpi-usage", "reduction operator not defined for the datatype");
        }
}
template <class T> static void cplx(int op, void *inout, const void *in, long n) {
    T *a = (T *)inout;
    const T *b = (const T *)in;
    for (long i = 0; i < n; i++) switch (op) {
        case 0: a[2 * i] += b[2 * i]; a[2 * i + 1] += b[2 * i + 1]; break;
        case 1: {
            T r = a[2 * i] * b[2 * i] - a[2 * i + 1] * b[2 * i + 1], m = a[2 * i] * b[2 * i + 1] + a[2 * i + 1] * b[2 * i];
            a[2 * i] = r;
            a[2 * i + 1] = m;
            break;
        }
        default: __hs_fail("mpi-usage", "reduction operator not defined for the datatype");
        }
}
template <class T> struct VL { T v; int loc; };
template <class T> static void loc(int op, void *inout, const void *in, long n) {
    VL<T> *a = (VL<T> *)inout;
    const VL<T> *b = (const VL<T> *)in;
    for (long i = 0; i < n; i++) {
        bool better = op == 4 ? b[i].v > a[i].v : b[i].v < a[i].v;
        if (better || (b[i].v == a[i].v && b[i].loc < a[i].loc)) a[i] = b[i];
    }
}
static void combine(hs_op_t *op, int type, void *inout, void *in, long cnt) {
    if (op->f) {
        int c = (int)cnt;
        op->f(in, inout, &c, &type);
        return;
    }
    int o = op->builtin;
    if (o == 4 || o == 5) {
        switch (type) {
        case MPI_FLOAT_INT: loc<float>(o, inout, in, cnt); return;
        case MPI_DOUBLE_INT: loc<double>(o, inout, in, cnt); return;
        case MPI_LONG_INT: loc<long>(o, inout, in, cnt); return;
        case MPI_2INT: loc<int>(o, inout, in, cnt); return;
        case MPI_LONG_DOUBLE_INT: loc<long double>(o, inout, in, cnt); return;
        }
        __hs_fail("mpi-usage", "MINLOC/MAXLOC on a datatype without location");
    }
    switch (type) {
    case MPI_INT: case MPI_INT32_T: arith<int>(o, inout, in, cnt); return;
    case MPI_UNSIGNED: case MPI_UINT32_T: arith<unsigned>(o, inout, in, cnt); return;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: arith<long>(o, inout, in, cnt); return;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: arith<unsigned long>(o, inout, in, cnt); return;
    case MPI_FLOAT: arith<float>(o, inout, in, cnt); return;
    case MPI_DOUBLE: arith<double>(o, inout, in, cnt); return;
    case MPI_LONG_DOUBLE: arith<long double>(o, inout, in, cnt); return;
    case MPI_SHORT: arith<short>(o, inout, in, cnt); return;
    case MPI_C_BOOL: if (o >= 6) { arith<unsigned char>(o, inout, in, cnt); return; } break;
    case MPI_C_FLOAT_COMPLEX: cplx<float>(o, inout, in, cnt); return;
    case MPI_C_DOUBLE_COMPLEX: cplx<double>(o, inout, in, cnt); return;
    }
    __hs_fail("mpi-usage", "reduction operator not defined for the datatype");
}
struct Hdr { long kind, n, root, op; };
static long ctag(hs_comm_t *c) { return 1000000000L + c->seq++; }
// send header+payload to one rank of the communicator
static void csend(hs_comm_t *c, int to, long tag, Hdr h, const void *p, long n) {
    __hs_send(-1 - c->ctx, c->world[c->rank], c->world[to], tag, &h, sizeof h);
    __hs_send(-1 - c->ctx, c->world[c->rank], c->world[to], tag, p, n);
}
static void crecv(hs_comm_t *c, int from, long tag, Hdr h, void *p, long n, const char *what) {
    Hdr g;
    long s = c->world[from], d = c->world[c->rank];
    long t = __hs_post(-1 - c->ctx, s, d, tag);
    long t2 = __hs_post(-1 - c->ctx, s, d, tag);
    __hs_recv(-1 - c->ctx, s, d, tag, t, &g, sizeof g, what);
    if (g.kind != h.kind || g.n != h.n || g.root != h.root || g.op != h.op) __hs_fail("mpi-collective", "ranks meet in different collective operations (kind, size, root or operator differ)");
    __hs_recv(-1 - c->ctx, s, d, tag, t2, p, n, what);
}
static long opid(hs_op_t *o) { return o->f ? 100 : o->builtin; }
static int chk(hs_comm_t *c) {
    init();
    if (!c) __hs_fail("mpi-usage", "null communicator");
    return 0;
}
static void chkrank(hs_comm_t *c, int r) {
    if (r < 0 || r >= c->n) __hs_fail("mpi-usage", "rank outside the communicator");
}
static hs_req_t *mkreq(int kind, hs_comm_t *c) {
    hs_req_t *r = (hs_req_t *)calloc(1, sizeof(hs_req_t));
    r->kind = kind;
    r->c = c;
    r->w1 = r->w2 = -1;
    return r;
}
static void setst(MPI_Status *s, int src, int tag, long n) {
    if (!s) return;
    s->MPI_SOURCE = src;
    s->MPI_TAG = tag;
    s->MPI_ERROR = 0;
    s->count = n;
}
// reductions: contributions go to all (root < 0) or to root
static void red_post(hs_req_t *r, const void *in) {
    hs_comm_t *c = r->c;
    Hdr h = {r->root < 0 ? 3L : 4L, r->n, r->root, opid(r->op)};
    r->tag = ctag(c);
    r->buf = malloc(r->n ? r->n : 1);
    memcpy(r->buf, in, r->n);
    for (int i = 0; i < c->n; i++)
        if (i != c->rank && (r->root < 0 || r->root == i)) csend(c, i, r->tag, h, r->buf, r->n);
}
static void red_finish(hs_req_t *r) {
    hs_comm_t *c = r->c;
    Hdr h = {r->root < 0 ? 3L : 4L, r->n, r->root, opid(r->op)};
    if (r->root < 0 || r->root == c->rank) {
        void *acc = malloc(r->n ? r->n : 1), *tmp = malloc(r->n ? r->n : 1);
        for (int i = 0; i < c->n; i++) {
            void *dst = i == 0 ? acc : tmp;
            if (i == c->rank) memcpy(dst, r->buf, r->n);
            else crecv(c, i, r->tag, h, dst, r->n, r->root < 0 ? "MPI_Allreduce" : "MPI_Reduce");
            if (i) combine(r->op, r->type, acc, tmp, r->cnt);
        }
        memcpy(r->out, acc, r->n);
        free(acc);
        free(tmp);
    }
    free(r->buf);
}
extern "C" {
int MPI_Init(int *, char ***) { init(); return 0; }
int MPI_Init_thread(int *, char ***, int want, int *got) { init(); *got = want; return 0; }
int MPI_Initialized(int *f) { *f = hs_world_.world != nullptr; return 0; }
int MPI_Finalize() { return MPI_Barrier(MPI_COMM_WORLD); }
int MPI_Abort(MPI_Comm, int code) { __hs_exit(code, 1); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { chk(c); *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { chk(c); *r = c->n; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
    chk(c);
    struct It { int color, key; };
    It me = {color, key};
    It *all = (It *)malloc(sizeof(It) * c->n);
    long tag = ctag(c);
    Hdr h = {7, (long)sizeof(It), 0, 0};
    for (int i = 0; i < c->n; i++) if (i != c->rank) csend(c, i, tag, h, &me, sizeof me);
    for (int i = 0; i < c->n; i++) if (i == c->rank) all[i] = me; else crecv(c, i, tag, h, &all[i], sizeof(It), "MPI_Comm_split");
    hs_comm_t *r = (hs_comm_t *)calloc(1, sizeof(hs_comm_t));
    r->world = (int *)malloc(sizeof(int) * c->n);
    int *done = (int *)calloc(c->n, sizeof(int));
    int n = 0, first = -1;
    for (;;) {
        int best = -1;
        for (int i = 0; i < c->n; i++)
            if (!done[i] && all[i].color == color && (best < 0 || all[i].key < all[best].key)) best = i;
        if (best < 0) break;
        done[best] = 1;
        if (best == c->rank) r->rank = n;
        r->world[n++] = c->world[best];
    }
    for (int i = 0; i < c->n && first < 0; i++) if (all[i].color == color) first = i;
    r->n = n;
    // context: derived from the parent's context and collective sequence number, and the colour's first member
    r->ctx = (c->ctx + 1) * 4096 + (tag - 1000000000L) * 64 + first + 1;
    free(all);
    free(done);
    *out = color == MPI_UNDEFINED ? nullptr : r;
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { return MPI_Comm_split(c, 0, c->rank, o); }
int MPI_Comm_free(MPI_Comm *c) { *c = nullptr; return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *rq) {
    chk(c);
    chkrank(c, dst);
    hs_req_t *r = mkreq(1, c);
    r->n = n * tsize(t);
    r->src = c->world[c->rank];
    r->dst = c->world[dst];
    r->tag = tag;
    r->ticket = __hs_send(c->ctx, r->src, r->dst, tag, b, r->n);
    r->w1 = __hs_pend(b, r->n, 1);
    *rq = r;
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *rq) {
    chk(c);
    if (src < 0 || tag < 0) __hs_fail("mpi-model", "wildcard receive (not modelled)");
    chkrank(c, src);
    hs_req_t *r = mkreq(2, c);
    r->n = n * tsize(t);
    r->src = c->world[src];
    r->dst = c->world[c->rank];
    r->tag = tag;
    r->buf = b;
    r->root = src;
    r->ticket = __hs_post(c->ctx, r->src, r->dst, tag);
    r->w1 = __hs_pend(b, r->n, 2);
    *rq = r;
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
    chk(c);
    chkrank(c, dst);
    long k = __hs_send(c->ctx, c->world[c->rank], c->world[dst], tag, b, n * tsize(t));
    __hs_sync(c->ctx, c->world[c->rank], c->world[dst], tag, k, "MPI_Send");
    return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) {
    chk(c);
    if (src < 0 || tag < 0) __hs_fail("mpi-model", "wildcard receive (not modelled)");
    chkrank(c, src);
    long ti = __hs_post(c->ctx, c->world[src], c->world[c->rank], tag);
    long got = __hs_recv(c->ctx, c->world[src], c->world[c->rank], tag, ti, b, n * tsize(t), "MPI_Recv");
    if (got != n * tsize(t)) __hs_fail("mpi-size", "a message is received with another size than it was sent with");
    setst(s, src, tag, got);
    return 0;
}
int MPI_Wait(MPI_Request *rq, MPI_Status *s) {
    hs_req_t *r = *rq;
    if (!r) { setst(s, 0, 0, 0); return 0; }
    *rq = nullptr;
    if (r->w1 >= 0) __hs_unpend(r->w1);
    if (r->w2 >= 0) __hs_unpend(r->w2);
    switch (r->kind) {
    case 1: __hs_sync(r->c->ctx, r->src, r->dst, r->tag, r->ticket, "MPI_Wait on a send"); setst(s, 0, 0, 0); break;
    case 2: {
        long got = __hs_recv(r->c->ctx, r->src, r->dst, r->tag, r->ticket, r->buf, r->n, "MPI_Wait on a receive");
        if (got != r->n) __hs_fail("mpi-size", "a message is received with another size than it was sent with");
        setst(s, r->root, (int)r->tag, got);
        break;
    }
    case 3: case 4: red_finish(r); setst(s, 0, 0, 0); break;
    case 5: {
        Hdr h = {5, 0, 0, 0};
        for (int i = 0; i < r->c->n; i++) if (i != r->c->rank) crecv(r->c, i, r->tag, h, nullptr, 0, "MPI_Ibarrier");
        break;
    }
    }
    free(r);
    return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) {
    for (int i = 0; i < n; i++) MPI_Wait(&q[i], s ? &s[i] : nullptr);
    return 0;
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *s) {
    MPI_Wait(q, s);
    *flag = 1;
    return 0;
}
int MPI_Cancel(MPI_Request *q) { (*q)->cancelled = true; return 0; }
int MPI_Test_cancelled(const MPI_Status *, int *f) { *f = 0; return 0; }
int MPI_Request_free(MPI_Request *q) {
    __hs_fail("mpi-model", "MPI_Request_free (not modelled)");
    *q = nullptr;
    return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) {
    chk(c);
    hs_req_t *r = mkreq(5, c);
    r->tag = ctag(c);
    Hdr h = {5, 0, 0, 0};
    for (int i = 0; i < c->n; i++) if (i != c->rank) csend(c, i, r->tag, h, nullptr, 0);
    *q = r;
    return 0;
}
int MPI_Barrier(MPI_Comm c) {
    MPI_Request q;
    MPI_Ibarrier(c, &q);
    return MPI_Wait(&q, nullptr);
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    chk(c);
    chkrank(c, root);
    long sz = n * tsize(t), tag = ctag(c);
    Hdr h = {2, sz, root, 0};
    if (c->rank == root) {
        for (int i = 0; i < c->n; i++) if (i != root) csend(c, i, tag, h, b, sz);
    } else
        crecv(c, root, tag, h, b, sz, "MPI_Bcast");
    return 0;
}
static MPI_Request ired(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, bool nb) {
    chk(c);
    hs_req_t *r = mkreq(root < 0 ? 3 : 4, c);
    r->n = n * tsize(t);
    r->cnt = n;
    r->type = t;
    r->op = op;
    r->root = root;
    r->out = out;
    bool inplace = in == MPI_IN_PLACE;
    if (inplace && root >= 0 && root != c->rank) __hs_fail("mpi-usage", "MPI_IN_PLACE on a rank that is not the root");
    red_post(r, inplace ? out : in);
    if (nb) {
        if (root < 0 || root == c->rank) r->w1 = __hs_pend(out, r->n, 2);
        if (!inplace) r->w2 = __hs_pend(in, r->n, 1);
    }
    return r;
}
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    MPI_Request q = ired(in, out, n, t, op, root, c, false);
    return MPI_Wait(&q, nullptr);
}
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    MPI_Request q = ired(in, out, n, t, op, -1, c, false);
    return MPI_Wait(&q, nullptr);
}
int MPI_Ireduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *q) {
    *q = ired(in, out, n, t, op, root, c, true);
    return 0;
}
int MPI_Iallreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) {
    *q = ired(in, out, n, t, op, -1, c, true);
    return 0;
}
int MPI_Allgather(const void *in, int n, MPI_Datatype t, void *out, int, MPI_Datatype, MPI_Comm c) {
    chk(c);
    long sz = n * tsize(t), tag = ctag(c);
    Hdr h = {8, sz, 0, 0};
    if (in != MPI_IN_PLACE) memcpy((char *)out + sz * c->rank, in, sz);
    for (int i = 0; i < c->n; i++) if (i != c->rank) csend(c, i, tag, h, (char *)out + sz * c->rank, sz);
    for (int i = 0; i < c->n; i++) if (i != c->rank) crecv(c, i, tag, h, (char *)out + sz * i, sz, "MPI_Allgather");
    return 0;
}
int MPI_Gather(const void *in, int n, MPI_Datatype t, void *out, int, MPI_Datatype, int root, MPI_Comm c) {
    chk(c);
    long sz = n * tsize(t), tag = ctag(c);
    Hdr h = {9, sz, root, 0};
    if (c->rank != root) csend(c, root, tag, h, in, sz);
    else
        for (int i = 0; i < c->n; i++)
            if (i == root) memcpy((char *)out + sz * i, in, sz);
            else crecv(c, i, tag, h, (char *)out + sz * i, sz, "MPI_Gather");
    return 0;
}
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o) {
    long e = 0;
    for (int i = 0; i < n; i++) {
        long x = d[i] + bl[i] * tsize(t[i]);
        if (x > e) e = x;
    }
    user_size[n_user] = e;
    *o = MPI_USER_TYPE0 + n_user++;
    return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) {
    user_size[n_user] = n * tsize(t);
    *o = MPI_USER_TYPE0 + n_user++;
    return 0;
}
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *) { return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)tsize(t); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *o) {
    hs_op_t *p = (hs_op_t *)malloc(sizeof(hs_op_t));
    p->builtin = -1;
    p->f = f;
    *o = p;
    return 0;
}
int MPI_Op_free(MPI_Op *) { return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int)(s->count / tsize(t)); return 0; }
int MPI_Get_processor_name(char *p, int *n) { strcpy(p, "node"); *n = 4; return 0; }
double __hs_clock();
double MPI_Wtime() { return __hs_clock(); }
}
extern "C" void hs_allsum(long *v, long n) { MPI_Allreduce(MPI_IN_PLACE, v, (int)n, MPI_LONG, MPI_SUM, MPI_COMM_WORLD); }
