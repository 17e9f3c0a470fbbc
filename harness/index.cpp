// Site numbering: coordinates and local indices are inverse to each other, on the own block and for the blocks of the
// other processes, and even sites come before odd ones.
#include "hv.h"
extern "C" void hs_main() {
    CoordinateVector L = hv_size();
    hv_init(L);
    int n = hs_nranks(), me = hs_rank();
    const auto &nd = lattice->mynode;
    unsigned V = nd.volume;
    // local index -> coordinates -> local index, for a symbolic index
    unsigned i = (unsigned)hs_int("i", me, 0, V - 1);
    CoordinateVector c = lattice->coordinates(i);
    hs_check(lattice->is_on_mynode(c), "coordinates of a local site are in the block");
    hs_check(lattice->site_index(c) == i, "site_index inverts coordinates");
    for (int d = 0; d < NDIM; d++) hs_check(lattice->coordinate(i, (Direction)d) == c[d], "single coordinate");
    bool ev = hv_even(c);
    hs_check((i < nd.evensites) == ev, "even sites first");
    hs_check((lattice->site_parity(i) == EVEN) == ev, "parity of a site");
    hs_check((c.parity() == EVEN) == ev, "parity of a coordinate");
    // loop ranges
    hs_check(lattice->loop_begin(ALL) == 0 && lattice->loop_end(ALL) == V, "range of all sites");
    hs_check(lattice->loop_begin(EVEN) == 0 && lattice->loop_end(EVEN) == nd.evensites, "range of even sites");
    hs_check(lattice->loop_begin(ODD) == nd.evensites && lattice->loop_end(ODD) == V, "range of odd sites");
    // any site: the index on its owner, as every process computes it
    std::vector<long> cnt(n, 0), off(n + 1, 0);
    cnt[me] = V;
    hs_allsum(cnt.data(), n);
    for (int p = 0; p < n; p++) off[p + 1] = off[p] + cnt[p];
    std::vector<long> tab(off[n], 0);
    for (unsigned k = 0; k < V; k++) tab[off[me] + k] = hv_sid(lattice->coordinates(k), L);
    hs_allsum(tab.data(), tab.size());
    // X.coordinates() in a site loop
    Field<CoordinateVector> f;
    f[ALL] = X.coordinates();
    for (unsigned j = 0; j < V; j++) {
        CoordinateVector x = f.get_value_at(j), y = lattice->coordinates(j);
        hs_check(hv_sid(x, L) == hv_sid(y, L), "X.coordinates()");
    }
    Field<int> p, x0;
    onsites(ALL) {
        p[X] = X.parity() == EVEN ? 1 : 0;
        x0[X] = X.coordinate(e_y) + 100 * X.x();
    }
    for (unsigned j = 0; j < V; j++) {
        CoordinateVector y = lattice->coordinates(j);
        hs_check(p.get_value_at(j) == hv_even(y), "X.parity()");
        hs_check(x0.get_value_at(j) == y[1] + 100 * y[0], "X.coordinate()");
    }
    // every site belongs to exactly one parity loop
    Field<int> q;
    q[ALL] = 0;
    q[EVEN] += 1;
    q[ODD] += 2;
    for (unsigned j = 0; j < V; j++) hs_check(q.get_value_at(j) == (hv_even(lattice->coordinates(j)) ? 1 : 2), "parity loops");
#ifdef SUBNODE_LAYOUT
    CoordinateVector s;
    for (int d = 0; d < NDIM; d++) s[d] = (int)hs_int("s", d, 0, L[d] - 1);
    int r = lattice->node_rank(s);
    unsigned k = lattice->site_index(s, r);
    hs_check(k < (unsigned)cnt[r], "index on the owner is in range");
    hs_check(tab[off[r] + k] == hv_sid(s, L), "index on the owner names the site");
    if (r == me) hs_check(k == lattice->site_index(s), "index on the own block");
#else
    CoordinateVector s;
    for (int d = 0; d < NDIM; d++) s[d] = (int)hs_int("s", d + NDIM * me, 0, L[d] - 1);
    hs_assume(lattice->is_on_mynode(s));
    unsigned k = lattice->site_index(s);
    hs_check(k < V, "index of a local site is in range");
    hs_check(tab[off[me] + k] == hv_sid(s, L), "index names the site");
#endif
    // global index
    long g = hs_int("g", 0, 0, hv_volume(L) - 1);
    hs_check(hv_sid(lattice->global_coordinates(g), L) == g, "global index");
    hs_reach("end");
}
