// The memory pool: any history of requests and releases, with sizes left symbolic
#include "hv.h"
#include "plumbing/memory_pool.h"
extern "C" void hs_main() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    int n = hs_parami("n", 4), maxsize = hs_parami("max", 1000);
    hila::memory_pool &pool = *new hila::memory_pool;
    struct block { char *p; long size; bool live; char tag; };
    block b[16];
    int nb = 0;
    long allocs = 0;
    bool wrong = false;
    for (int i = 0; i < n && !wrong; i++) {
        int op = hs_choose("op", i, 0, hs_parami("ops", 2));
        long before = pool.size(), trues = pool.status().n_true_allocs, total = pool.status().total_size;
        if (op == 0) { // a request
            long size = hs_int("size", i, 0, maxsize);
            char *p = (char *)pool.alloc(size);
            allocs++;
            hs_check(p != nullptr, "memory is returned");
            hs_check((unsigned long)p % hs_parami("align", 16) == 0, "alignment");
            long have = hs_objsize(p);
            hs_check(have >= size, "a block is as large as requested");
            bool known = false;
            for (int k = 0; k < nb; k++) {
                hs_check(!(b[k].live && b[k].p == p), "a block in use is not given again");
                if (b[k].p == p) known = true;
            }
            if (known) hs_check((long)pool.status().n_true_allocs == trues && (long)pool.size() == before, "reuse allocates nothing");
            else hs_check((long)pool.status().n_true_allocs == trues + 1 && (long)pool.status().total_size >= total + size && (long)pool.status().total_size <= total + have, "accounting of a new block");
            // a free block of this very size is used again
            if (!known) for (int k = 0; k < nb; k++)
                if (!b[k].live && b[k].size >= 0) hs_check(b[k].size != size, "a released block of the same size is reused");
            if (known) hs_reach("reused");
            p[0] = (char)(i + 1);
            if (hs_parami("last", 0)) p[size > 0 ? size - 1 : 0] = (char)(i + 1);
            b[nb++] = {p, size, true, (char)(i + 1)};
            for (int k = 0; k < nb - 1; k++) if (b[k].p == p) b[k].size = -1; // gone: its place is taken
        } else if (op == 1) { // a release
            int live[16], m = 0;
            for (int k = 0; k < nb; k++) if (b[k].live && b[k].size >= 0) live[m++] = k;
            int r = hs_choose("which", i, 0, m); // the last: not a block in use
            if (r == m) {
                if (!hs_parami("misuse", 1)) hs_assume(0);
                wrong = true;
                hs_allow_exit();
                hs_reach("misuse");
                char *q = (char *)&wrong;
                for (int k = 0; k < nb; k++) if (!b[k].live && b[k].size >= 0) q = b[k].p;
                pool.free(q);
                hs_check(0, "a release of memory that is not in use is refused");
            }
            pool.free(b[live[r]].p);
            b[live[r]].live = false;
        } else {
            long have = 0, least = 0;
            for (int k = 0; k < nb; k++) if (b[k].size >= 0 && b[k].live) have += hs_objsize(b[k].p), least += b[k].size;
            pool.purge();
            int m = 0;
            for (int k = 0; k < nb; k++)
                if (b[k].size >= 0 && b[k].live) hs_check(hs_objsize(b[k].p) >= b[k].size, "purge keeps what is in use"), m++;
                else if (b[k].size >= 0) {
                    if (hs_symbolic()) hs_check(hs_objsize(b[k].p) < 0, "purge returns what is free");
                    b[k].size = -1;
                }
            hs_check((long)pool.size() == m && (long)pool.status().total_size <= have && (long)pool.status().total_size >= least, "accounting after purge");
            hs_reach("purge");
        }
        hs_check((long)pool.status().n_allocs == allocs, "number of requests");
        int owned = 0;
        for (int k = 0; k < nb; k++) if (b[k].size >= 0) owned++;
        hs_check((long)pool.size() == owned, "every block of the pool is accounted for");
        for (int k = 0; k < nb; k++)
            if (b[k].live && b[k].size >= 0) hs_check(b[k].p[0] == b[k].tag, "contents of blocks in use");
    }
    hs_reach("end");
}
