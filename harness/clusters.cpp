// Clusters of sites of the same type, and of linked sites
#include "hv.h"
#include "clusters.h"
static CoordinateVector L;
static long V, NSYM, PAT;
typedef hila::Clusters C;
static const int none = C::background;
// type of the site: any of the types for NSYM sites, a fixed pattern for the others
static int type(long s) {
    long k = (s * 5 + PAT) % V;
    if (V % 5 == 0) k = (s + PAT) % V;
    int t = k < NSYM ? (int)hs_choose("t", s, 0, hs_parami("types", 1)) : (int)((s * 7 + s / 3 + PAT) % 3 == 0);
    return t == 0 ? none : t == 1 ? 1 : t == 2 ? 0 : 254;
}
static int linked(int d, long s) {
    long k = (s * NDIM + d) * 7 + PAT, n = V * NDIM;
    k = n % 7 ? k % n : (s * NDIM + d + PAT) % n;
    return k < NSYM ? (int)hs_choose("l", s * NDIM + d, 0, 1) : (int)((k * 5 + PAT) % 4 == 0);
}
// connected components, found site by site
static int *part, *kind;
static long nparts;
static bool links;
static bool joined(long s, int d) { // the site and its neighbour up
    CoordinateVector c = hv_coord(s, L);
    c[d] += 1;
    long r = hv_sid(hv_wrap(c, L), L);
    if (kind[s] == none || kind[r] == none) return false;
    return links ? linked(d, s) != 0 : kind[s] == kind[r];
}
static long up(long s, int d, int n) {
    CoordinateVector c = hv_coord(s, L);
    c[d] += n;
    return hv_sid(hv_wrap(c, L), L);
}
static void components() {
    part = new int[V];
    kind = new int[V];
    for (long s = 0; s < V; s++) kind[s] = links ? none : type(s);
    if (links)
        for (long s = 0; s < V; s++)
            for (int d = 0; d < NDIM; d++)
                if (linked(d, s)) kind[s] = kind[up(s, d, 1)] = 1;
    for (long s = 0; s < V; s++) part[s] = -1;
    nparts = 0;
    long *todo = new long[V * 2 * NDIM + 1];
    for (long s = 0; s < V; s++) {
        if (kind[s] == none || part[s] >= 0) continue;
        long n = 0;
        todo[n++] = s;
        part[s] = nparts;
        while (n) {
            long r = todo[--n];
            for (int d = 0; d < NDIM; d++) {
                long u = up(r, d, 1), w = up(r, d, -1);
                if (part[u] < 0 && joined(r, d)) part[u] = nparts, todo[n++] = u;
                if (part[w] < 0 && joined(w, d)) part[w] = nparts, todo[n++] = w;
            }
        }
        nparts++;
    }
    delete[] todo;
}
static void compare(const C &cl) {
    // the labels
    const auto &f = cl.get_labels();
    long *lab = new long[V];
    for (long s = 0; s < V; s++) lab[s] = 0;
    for (unsigned i = 0; i < hv_sites(); i++) lab[hv_sid(lattice->coordinates(i), L)] = (long)f.get_value_at(i);
    hs_allsum(lab, V);
    for (long s = 0; s < V; s++) {
        hs_check((hila::get_cl_label_type(lab[s]) == none) == (kind[s] == none), "background");
        if (kind[s] == none) continue;
        hs_check(hila::get_cl_label_type(lab[s]) == kind[s], "type of the label");
        for (long r = 0; r < s; r++)
            if (kind[r] != none) hs_check((lab[s] == lab[r]) == (part[s] == part[r]), "the same label if and only if connected");
    }
    hs_check((long)cl.number() == nparts && (long)cl.size() == nparts, "number of clusters");
    // the list, known to all processes
    long nseen = 0;
    for (long i = 0; i < nparts; i++) {
        long p = -1, size = 0, area = 0;
        for (long s = 0; s < V; s++)
            if (kind[s] != none && (long)cl[i].label() == lab[s]) p = part[s];
        hs_check(p >= 0, "a listed cluster is one of the components");
        if (p < 0) continue;
        for (long j = 0; j < i; j++) hs_check(cl[j].label() != cl[i].label(), "clusters are listed once");
        for (long s = 0; s < V; s++) {
            if (part[s] != p) continue;
            size++;
            for (int d = 0; d < NDIM; d++) area += (part[up(s, d, 1)] != p) + (part[up(s, d, -1)] != p);
        }
        hs_eq_i64(cl[i].size(), size, "size of the cluster");
        for (long s = 0; s < V; s++) if (part[s] == p) hs_eq_i64(cl[i].type(), kind[s], "type of the cluster");
        if (hs_parami("slow", 1) == 0) continue;
        hs_eq_i64(cl[i].area(), area, "area of the cluster");
        auto sites = cl[i].sites();
        long here[64];
        for (long s = 0; s < V; s++) here[s] = 0;
        for (size_t k = 0; k < sites.size(); k++) here[hv_sid(sites[k].coordinates(), L)]++;
        if (hs_rank() == 0)
            for (long s = 0; s < V; s++) hs_eq_i64(here[s], part[s] == p, "sites of the cluster");
        nseen += size;
    }
    if (nseen > 2) hs_reach("clusters");
    delete[] lab;
}
template <typename T> static void sites() {
    components();
    Field<T> f;
    f.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) f.set_value_at((T)kind[hv_sid(lattice->coordinates(i), L)], i);
    f.mark_changed(ALL);
    C cl(f);
    compare(cl);
    if (hs_parami("twice", 0)) { // use again
        Field<T> g;
        g = C::background;
        cl.find(g);
        hs_check(cl.number() == 0, "no clusters in the background");
        cl.find(f);
        compare(cl);
    }
}
#ifndef INTS
template <typename T> static void bylinks() {
    links = true;
    components();
    VectorField<T> l = 0;
    foralldir (d) {
        for (unsigned i = 0; i < hv_sites(); i++) l[d].set_value_at((T)linked(d, hv_sid(lattice->coordinates(i), L)), i);
        l[d].mark_changed(ALL);
    }
    C cl(l);
    compare(cl);
}
#endif
extern "C" void hs_main() {
    hv_init(L = hv_size());
    V = hv_volume(L);
    NSYM = hs_parami("nsym", 6);
    PAT = hs_parami("pat", 0);
    switch (hs_parami("what", 0)) {
#ifndef INTS
    case 0: sites<uint8_t>(); break;
    case 2: bylinks<uint8_t>(); break;
    case 3: bylinks<int>(); break;
#endif
    case 1: sites<int>(); break;
    }
    hs_reach("end");
}
