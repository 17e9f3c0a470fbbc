// Access by coordinates: elements, lists, sub-volumes, slices, local copies.
#include "hv.h"
#include <vector>
static CoordinateVector L;
static long V;
template <typename T> static T other(const char *n, long k) { return hv_val<T>(n, k); }
// the field is what the model says at every local site
template <typename T> static void whole(const Field<T> &f, const std::vector<T> &m, const char *w) {
    for (unsigned i = 0; i < hv_sites(); i++) {
        T y = f.get_value_at(i);
        hv_eq(y, m[hv_sid(lattice->coordinates(i), L)], w);
    }
}
// and at every neighbour of every site
template <typename T> static void fresh(const Field<T> &f, const std::vector<T> &m) {
    Field<T> a;
    Direction d = (Direction)hs_choose("dir", 0, 0, 2 * NDIM - 1);
    a[ALL] = f[X + d];
    for (unsigned i = 0; i < hv_sites(); i++) {
        T y = a.get_value_at(i);
        hv_eq(y, m[hv_sid(hv_wrap(lattice->coordinates(i) + hv_step(d), L), L)], "neighbour after access");
    }
}
template <typename T> static std::vector<T> model(const char *n) {
    std::vector<T> m(V);
    for (long k = 0; k < V; k++) m[k] = hv_val<T>(n, k);
    return m;
}
template <typename F, typename T> static void incdec(F &, std::vector<T> &, const CoordinateVector &, long, int) {}
static void incdec(Field<int> &f, std::vector<int> &m, const CoordinateVector &c, long k, int op) {
    int x;
    if (op == 0) { x = f[c]++; hv_eq(x, m[k], "postfix ++"); m[k] += 1; }
    if (op == 1) { x = --f[c]; m[k] -= 1; hv_eq(x, m[k], "prefix --"); }
}
static void incdec(Field<double> &f, std::vector<double> &m, const CoordinateVector &c, long k, int op) {
    double x;
    if (op == 0) { x = f[c]--; hv_eq(x, m[k], "postfix --"); m[k] -= 1; }
    if (op == 1) { x = ++f[c]; m[k] += 1; hv_eq(x, m[k], "prefix ++"); }
}
template <typename T> static void elements(Field<T> &f) {
    std::vector<T> m = model<T>("f");
    long k = hs_choose("site", 0, 0, V - 1);
    CoordinateVector c = hv_coord(k, L);
    T x = f.get_element(c), y = other<T>("y", 0), z = other<T>("y", 1);
    hv_same(x, m[k], "get_element");
    x = f[c];
    hv_same(x, m[k], "f[coordinate]");
    int op = (int)hs_choose("op", 0, 0, 6);
    if (op == 0) { x = f.set_element(c, y); m[k] = y; hv_same(x, y, "set_element returns the value"); }
    if (op == 1) { f[c] = y; m[k] = y; }
    if (op == 2) { f[c] += y; m[k] += y; }
    if (op == 3) { f[c] -= y; m[k] -= y; }
    if (op == 4) { f[c] *= 2; m[k] *= 2; }
    if (op == 5) incdec(f, m, c, k, 0);
    if (op == 6) incdec(f, m, c, k, 1);
    whole(f, m, "field after an element is changed");
    fresh(f, m);
    f[c] = z;
    m[k] = z;
    CoordinateVector c2 = hv_coord((k + V / 2 + 1) % V, L);
    f[c2] = f[c];
    m[hv_sid(c2, L)] = z;
    x = f[c2];
    hv_same(x, z, "copied element");
    whole(f, m, "field after two more changes");
    fresh(f, m);
}
template <typename T> static void lists(Field<T> &f) {
    std::vector<T> m = model<T>("f");
    bool bc = hs_choose("bcast", 0, 0, 1), get = bc || hila::myrank() == 0;
    int op = (int)hs_choose("op", 0, 0, 3);
    std::vector<CoordinateVector> cl;
    std::vector<T> r;
    if (op == 0) { // any list, with repeated sites
        long a = hs_choose("a", 0, 0, V - 1), n = hs_choose("n", 0, 0, 3) * 2;
        for (long j = 0; j < n; j++) cl.push_back(hv_coord((a + j * j * 3 + (V - 1) * (j % 2)) % V, L));
        r = f.get_elements(cl, bc);
    } else if (op == 1) { // all sub-volumes
        CoordinateVector lo, hi, c;
        foralldir(d) {
            lo[d] = (int)hs_choose("lo", d, 0, L[d] - 1);
            hi[d] = d < 2 ? (int)hs_choose("hi", d, lo[d], L[d] - 1) : L[d] - 1;
        }
        for (long k = 0; k < V; k++) {
            c = hv_coord(k, L);
            bool inside = true;
            foralldir(d) inside = inside && c[d] >= lo[d] && c[d] <= hi[d];
            if (inside) cl.push_back(c);
        }
        r = f.get_subvolume(lo, hi, bc);
    } else if (op == 2) {
        CoordinateVector s, c;
        foralldir(d) s[d] = (int)hs_choose("s", d, -1, L[d] - 1);
        for (long k = 0; k < V; k++) {
            c = hv_coord(k, L);
            bool inside = true;
            foralldir(d) inside = inside && (s[d] < 0 || c[d] == s[d]);
            if (inside) cl.push_back(c);
        }
        r = f.get_slice(s, bc);
    } else { // set a list
        long a = hs_choose("a", 0, 0, V - 1), n = hs_choose("n", 0, 0, 4);
        std::vector<T> v;
        for (long j = 0; j < n; j++) {
            long k = (a + 3 * j) % V;
            bool have = false;
            for (auto &c : cl) have = have || hv_sid(c, L) == k;
            if (have) continue;
            cl.push_back(hv_coord(k, L));
            v.push_back(other<T>("y", j));
            m[k] = other<T>("y", j);
        }
        f.set_elements(v, cl);
        r = f.get_elements(cl, bc);
        whole(f, m, "field after set_elements");
        fresh(f, m);
    }
    if (get) {
        hs_check(r.size() == cl.size(), "number of elements");
        for (size_t j = 0; j < r.size() && j < cl.size(); j++) hv_same(r[j], m[hv_sid(cl[j], L)], "element of the list");
    }
    whole(f, m, "the field is not changed");
}
template <typename T> static void local(Field<T> &f) {
    std::vector<T> m = model<T>("f"), b, h, m2 = model<T>("g");
    f.copy_local_data(b);
    CoordinateVector mn = lattice->mynode.min, sz;
    foralldir(d) sz[d] = lattice->mynode.size[d];
    long vol = hv_volume(sz);
    hs_check((long)b.size() == vol, "size of the local copy");
    for (long k = 0; k < vol; k++) hv_same(b[k], m[hv_sid(hv_coord(k, sz) + mn, L)], "copy_local_data");
    CoordinateVector hz = sz;
    foralldir(d) hz[d] += 2;
    bool thin = false; // a single layer of sites in some direction
    foralldir(d) thin = thin || sz[d] < 2;
    long nthin = thin;
    hs_allsum(&nthin, 1);
    if (nthin == 0 || hs_parami("thin", 0)) {
        f.copy_local_data_with_halo(h);
        hs_check((long)h.size() == hv_volume(hz), "size of the local copy with halo");
        for (long k = 0; k < hv_volume(hz); k++) {
            CoordinateVector c = hv_coord(k, hz) + mn;
            foralldir(d) c[d] -= 1;
            hv_same(h[k], m[hv_sid(hv_wrap(c, L), L)], thin ? "halo copy on a process with a single layer of sites" : "copy_local_data_with_halo");
        }
    }
    for (long k = 0; k < vol; k++) b[k] = m2[hv_sid(hv_coord(k, sz) + mn, L)];
    f.set_local_data(b);
    whole(f, m2, "set_local_data");
    fresh(f, m2);
}
template <typename T> static void run(int what) {
    Field<T> f;
    hv_fill(f, "f");
    if (what == 0) elements(f);
    if (what == 1) lists(f);
    if (what == 2) local(f);
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    int t = (int)hs_parami("type", 0), what = (int)hs_parami("what", 0);
    if (t == 0) run<double>(what);
    else if (t == 1) run<int>(what);
    else if (t == 2) run<Complex<float>>(what);
    else run<Vector<3, double>>(what);
    hs_reach("end");
}
