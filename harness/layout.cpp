// Node layout: the sites of the lattice are divided over the processes as a partition of rectangular blocks, and every
// process computes the same owner for every site.
#include "hv.h"
extern "C" void hs_main() {
    CoordinateVector L = hv_size();
    hv_init(L);
    int n = hs_nranks(), me = hs_rank();
    long vol = hv_volume(L);
    const auto &nd = lattice->mynode;
    hs_check(lattice.volume() == vol, "volume");
    hs_check(hila::number_of_nodes() == n && hila::myrank() == me, "rank and number of processes");
    // my block
    long mv = 1;
    for (int d = 0; d < NDIM; d++) {
        hs_check(nd.size[d] >= 1 && nd.min[d] >= 0 && nd.min[d] + nd.size[d] <= L[d], "block inside the lattice");
        hs_check(nd.size[d] <= lattice->nodes.max_size[d], "largest block");
        mv *= nd.size[d];
    }
    hs_check((long)nd.volume == mv, "block volume");
    hs_check(nd.volume == nd.evensites + nd.oddsites, "even and odd sites");
    hs_check(nd.field_alloc_size >= nd.volume, "storage for the block");
    hs_check(nd.rank == me, "rank of the block");
    long total = mv;
    hs_allsum(&total, 1);
    hs_check(total == vol, "blocks cover the lattice exactly once");
    // a symbolic site
    CoordinateVector c;
    bool in = true;
    for (int d = 0; d < NDIM; d++) {
        c[d] = (int)hs_int("c", d, 0, L[d] - 1);
        in = in & (c[d] >= nd.min[d]) & (c[d] < nd.min[d] + nd.size[d]);
    }
    hs_check(lattice->is_on_mynode(c) == in, "is_on_mynode");
    int r = lattice->node_rank(c);
    hs_check(r >= 0 && r < n, "owner is a process");
    hs_check((r == me) == in, "owner of a site is the process whose block contains it");
    // block list agrees with what the processes themselves have
    std::vector<long> all(n * 2 * NDIM, 0);
    for (int d = 0; d < NDIM; d++) { all[me * 2 * NDIM + d] = nd.min[d]; all[me * 2 * NDIM + NDIM + d] = nd.size[d]; }
    hs_allsum(all.data(), all.size());
    long even = 0;
    for (int p = 0; p < n; p++) {
        node_info ni = lattice->nodes.nodeinfo(p);
        bool same = true, inp = true;
        for (int d = 0; d < NDIM; d++) {
            same = same && ni.min[d] == all[p * 2 * NDIM + d] && ni.size[d] == all[p * 2 * NDIM + NDIM + d];
            inp = inp & (c[d] >= ni.min[d]) & (c[d] < ni.min[d] + (int)ni.size[d]);
        }
        hs_check(same, "block of another process");
        hs_check(inp == (r == p), "owner among all processes");
        hs_check(lattice->nodes.remap(lattice->nodes.inverse_remap(p)) == p, "rank map is a permutation");
        even += ni.evensites;
        if (p == me) hs_check(ni.evensites == nd.evensites && ni.oddsites == nd.oddsites, "parity counts");
    }
    hs_check(even == (vol + 1) / 2, "number of even sites");
    hs_reach("end");
}
