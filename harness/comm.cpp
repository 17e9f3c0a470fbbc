// Message passing: histories of operations that communicate, over several fields and reductions that are under way at the
// same time.  Nothing is checked here but what the MPI model itself reports: processes waiting for each other, messages
// of another size, collectives that meet in different order, buffers touched while a transfer is pending, and messages,
// requests or collectives left over at the end.  A few results are compared so that the histories mean something.
#include "hv.h"
static CoordinateVector L;
static long V;
static const char *FN = "hv_comm.dat";
struct Pair { double a; long b; };
static void ring(int k) { // point to point
    int me = hila::myrank(), n = hila::number_of_nodes();
    std::vector<double> v((me + k) % 3), w;
    for (auto &x : v) x = me + 0.5;
    Pair p = {(double)me, k}, q = {0, 0};
    if (n == 1) return;
    int to = (me + 1) % n, from = (me + n - 1) % n;
    if (me == 0) {
        hila::send_to(to, p);
        hila::send_to(to, v);
        hila::receive_from(from, q);
        hila::receive_from(from, w);
    } else {
        hila::receive_from(from, q);
        hila::receive_from(from, w);
        hila::send_to(to, p);
        hila::send_to(to, v);
    }
    hs_check(q.a == from && q.b == k, "data received");
    hs_check((long)w.size() == (from + k) % 3, "size of the list received");
    for (double x : w) hs_check(x == from + 0.5, "list received");
}
static void bcasts(int k) {
    int me = hila::myrank(), root = (k * 5 + 1) % hila::number_of_nodes();
    int i = me == root ? 42 + k : -1;
    hila::broadcast(i, root);
    hs_check(i == 42 + k, "broadcast number");
    std::vector<long> v(me == root ? k : 7, me);
    hila::broadcast(v, root);
    hs_check((long)v.size() == k, "size of the broadcast list");
    for (long x : v) hs_check(x == root, "broadcast list");
    std::string s = me == root ? "root's" : "other string";
    hila::broadcast(s, root);
    hs_check(s == "root's", "broadcast string");
    std::vector<std::string> l;
    if (me == root) l = {"a", "", "ccc"};
    hila::broadcast(l, root);
    hs_check(l.size() == 3 && l[1] == "" && l[2] == "ccc", "broadcast list of strings");
    double d = me == root ? 1.5 : 0;
    int j = me == root ? 3 : 0;
    hila::broadcast2(d, j, root);
    hs_check(d == 1.5 && j == 3, "two values broadcast");
    int a[3] = {me, me, me};
    hila::broadcast_array(a, 3, root);
    hs_check(a[2] == root, "broadcast array");
}
struct World {
    Field<double> f, h;
    Field<Vector<2, double>> u;
    Reduction<double> rr, qq;
    ReductionVector<double> rvv;
    Direction d, e;
};
// two reads of one loop, of two fields, in two directions
static void loop(World &w, Parity p) {
    Reduction<double> &r = w.rr;
    Field<double> t;
    t[ALL] = 0;
    Direction d = w.d, e = w.e;
    onsites(p) t[X] = w.f[X + d] + w.h[X - e] + w.f[X + e] + w.u[X + d].dot(w.u[X - d]);
    onsites(p) r += t[X] * w.f[X - e];
}
// a field that goes out of scope, is moved or copied while fetches are under way
static void leave(World &w, int k) {
    Reduction<double> &r = w.rr;
    Field<double> t;
    hv_fill(t, "t");
    t.start_gather(w.d, ALL);
    t.start_gather(-w.d, ODD);
    switch (k) {
    case 0: break;
    case 1: w.f = t; break;
    case 2: w.f = std::move(t); break;
    case 3: std::swap(w.f, t); break;
    case 4: t.clear(); break;
    case 5: { Field<double> s(std::move(t)); onsites(EVEN) r += s[X + w.d]; break; }
    }
}
// a reduction that goes out of scope, is assigned, copied while it is under way
static void putoff(World &w, int k) {
    Reduction<double> r, &q = w.qq;
    r.nonblocking(true).delayed(k & 1).allreduce(!(k & 2));
    onsites(ALL) r += w.f[X];
    if (k & 4) r = 1.0;
    if (k & 8) q = r;
}
// copies of an array reduction that is under way or put off
static void copies(World &w, int k) {
    ReductionVector<double> a(2), b(1);
    a = 0;
    a.nonblocking(true).delayed(k & 1);
    onsites(ALL) { a[0] += 1; a[1] += w.f[X]; }
    ReductionVector<double> c(a);
    if (k & 2) b = a;
    else b = std::move(a);
    c.reduce();
    b.reduce();
    hs_check(c.size() == 2 && c[0] == V, "copy of an array reduction");
    hs_check(b.size() == 2 && b[0] == V, "array reduction that was assigned");
}
static void step(World &w, int op, int k) {
    Reduction<double> &r = w.rr, &q = w.qq;
    ReductionVector<double> &rv = w.rvv;
    CoordinateVector c0 = hv_wrap(hv_step(w.d), L), c1 = hv_coord(V - 1, L);
    Direction d = w.d, e = w.e;
    switch (op) {
    case 0: w.f.start_gather(d, ALL); break;
    case 1: w.f.start_gather(d, EVEN); w.h.start_gather(-e, ODD); break;
    case 2: w.f.start_gather(e, ODD); w.u.start_gather(-d, ALL); break;
    case 3: w.f.gather(d, ALL); break;
    case 4: w.f.drop_comms(d, ALL); break;
    case 5: onsites(ALL) w.f[X] = w.h[X]; break;
    case 6: onsites(EVEN) w.h[X] = 2 * w.f[X]; break;
    case 7: loop(w, ALL); break;
    case 8: loop(w, EVEN); break;
    case 9: loop(w, ODD); break;
    case 10: onsites(ALL) q += w.f[X]; break;                            // q: not blocking
    case 11: { double v = q.value(); (void)v; break; }
    case 12: { double v = r.value(); (void)v; break; }                   // r: delayed
    case 13: r.start_reduce(); break;
    case 14: { int n = 0; onsites(ALL) { rv[0] += w.f[X]; n += 1; rv[1] += w.h[X + d]; } hs_check(n == V, "count"); break; }
    case 15: rv.start_reduce(); break;
    case 16: rv.wait(); break;
    case 17: q = 0; r = 1; break;
    case 18: w.f.set_element(c0, 1.25); hs_check(w.f.get_element(c0) == 1.25, "element"); break;
    case 19: { std::vector<CoordinateVector> l = {c0, c1, c0}; auto v = w.f.get_elements(l, k & 1); l.pop_back(); if (hila::myrank() == 0) { v.pop_back(); w.f.set_elements(v, l); } else { std::vector<double> z(2); w.f.set_elements(z, l); } break; }
    case 20: { Field<double> t; w.h.shift(hv_step(d) + hv_step(e) + hv_step(d), t, k & 1 ? EVEN : ALL); w.f = w.h.shift(hv_step(e) - hv_step(d)); break; }
    case 21: leave(w, (int)hs_choose("leave", k, 0, 5)); break;
    case 22: putoff(w, (int)hs_choose("putoff", k, 0, 15)); break;
    case 23: bcasts(k); break;
    case 24: ring(k); break;
    case 25: w.f.write(FN); hila::synchronize(); w.h.read(FN); break;
    case 26: { CoordinateVector c; Field<int> t; onsites(ALL) t[X] = X.coordinate(e_x) + 3 * X.coordinate(e_y); auto m = t.min(EVEN, c); auto x = t.max(c); (void)m; (void)x; break; }
    case 27: { SiteValueSelect<double> s; onsites(ALL) { if (X.parity() == EVEN) s.select(X, w.f[X]); } break; }
    case 28: hila::set_allreduce(false); { double s = 0; float g = 0; onsites(ALL) { s += w.f[X]; g += 1; } } break;
    case 29: { CoordinateVector sl = c1; sl[0] = -1; auto v = w.f.get_slice(sl); auto z = w.h.get_subvolume(c0, c0); (void)v; (void)z; break; }
    case 30: { double z = w.f.get_value_at(0); int n = 2; std::vector<int> a = {1, 2}; hila::reduce_node_sum(z, k & 1); hila::reduce_node_sum(a.data(), n, !(k & 1)); hila::reduce_node_product(n, k & 1); hila::synchronize(); break; }
    case 31: { Field<Complex<double>> a, b; onsites(ALL) { a[X].re = w.f[X]; a[X].im = 0; } b = a.FFT(); break; }
    case 32: { Field<Complex<double>> a, b; onsites(ALL) { a[X].re = w.h[X]; a[X].im = 1; } b = a.reflect(abs(d)); onsites(ALL) w.h[X] = b[X].re; break; }
    case 33: copies(w, (int)hs_choose("copies", k, 0, 3)); break;
    }
}
static const int NOP = 34;
extern "C" void hs_main() {
    L = hv_size();
    int parts = hs_parami("parts", 1), pnum = 0;
    if (parts > 1) { // as set up by -partitions
        static int argc = 1;
        static char prog[] = "prog", *argv_[] = {prog, nullptr};
        char **argv = argv_;
        hila::initialize(argc, argv);
        pnum = hila::myrank() / (hila::number_of_nodes() / parts);
        hila::partitions.set_number(parts);
        hila::partitions.set_mylattice(pnum);
        hila::split_into_partitions(pnum);
        if (pnum) FN = "hv_comm1.dat";
        lattice.setup(L);
    } else
        hv_init(L);
    V = hv_volume(L);
    int n = hs_parami("depth", 2);
    {
        World w;
        Reduction<double> &r = w.rr, &q = w.qq;
        ReductionVector<double> &rv = w.rvv;
        w.d = (Direction)hs_parami("d", 0);
        w.e = (Direction)hs_parami("e", 1);
        hv_fill(w.f, "f");
        hv_fill(w.h, "h");
        hv_fill(w.u, "u");
        q.nonblocking(true);
        r.delayed(true);
        q = 0;
        r = 0;
        rv.resize(2);
        rv.nonblocking(true).delayed(hs_parami("delay", 0));
        rv = 0;
        static const char *nm[] = {"op", "op of the other partition"};
        int only = hs_parami("first", -1);
        static const int few[] = {0, 1, 2, 4, 5, 6, 7, 9, 10, 12, 13, 14, 15, 16, 17, 18, 20}; // those that leave something under way
        for (int k = 0; k < n; k++) {
            int op = hs_parami("few", 0) ? few[hs_choose("op", k, 0, 16)] : k == 0 && only >= 0 ? only : (int)hs_choose(nm[pnum], k, 0, NOP - 1);
            step(w, op, k);
        }
        if (hs_parami("tail", 0)) {
            loop(w, ALL);
            double x = r.value() + q.value();
            (void)x;
        }
    }
    if (parts > 1) hila::synchronize_partitions();
    hs_reach("end");
}
