// Field::min / max: the extremum over the sites of the parity, and a site that has it, for all contents.
#include "hv.h"
static CoordinateVector L;
static long V;
static void any(double &x, const char *n, long k) { x = hs_f64(n, k, -1e300, 1e300); }
static void any(float &x, const char *n, long k) { x = hs_f32(n, k, -1e30, 1e30); }
static void any(int &x, const char *n, long k) { x = (int)hs_int(n, k, -2147483647L - 1, 2147483647L); }
static void any(long &x, const char *n, long k) { x = hs_int(n, k, -9223372036854775807L - 1, 9223372036854775807L); }
static long nsym;
template <typename T> static T at(long k) {
    T x;
    if (nsym && k % ((V - 1) / nsym) != 1) return (T)(-7 - k % 3); // only nsym sites are symbolic
    any(x, "f", k);
    return x;
}
template <typename T> static void result(T m, CoordinateVector loc, bool is_min, Parity p, bool hasloc) {
    bool ok = true, attained = false;
    for (long k = 0; k < V; k++) {
        CoordinateVector c = hv_coord(k, L);
        if (p != ALL && c.parity() != p) continue;
        T x = at<T>(k);
        ok = ok & (is_min ? m <= x : m >= x);
        attained = attained | ((x == m) & (!hasloc | (loc == c)));
    }
    hs_check(ok, "a site is beyond the extremum");
    hs_check(attained, hasloc ? "the returned coordinate is a site of the parity with that value" : "the extremum is the value of a site");
}
template <typename T> static void run() {
    Field<T> f;
    f.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) f.set_value_at(at<T>(hv_sid(lattice->coordinates(i), L)), i);
    f.mark_changed(ALL);
    long light = hs_parami("light", 0);
    int pp = (int)hs_choose("par", 0, light ? 1 : 0, 2), form = (int)hs_choose("form", 0, light ? 1 : 0, light ? 1 : 2), mn = (int)hs_choose("min", 0, 0, 1);
    Parity p = pp == 0 ? ALL : pp == 1 ? EVEN : ODD;
    CoordinateVector loc;
    foralldir(d) loc[d] = 1;
    T m;
    if (form == 0) m = mn ? f.min(p) : f.max(p);
    else if (form == 1) m = mn ? f.min(p, loc) : f.max(p, loc);
    else { hs_assume(p == ALL); m = mn ? f.min(loc) : f.max(loc); }
    result(m, loc, mn, p, form > 0);
    // all processes have the same: the value and location are those of one site on every process
    for (unsigned i = 0; i < hv_sites(); i++) hs_check(f.get_value_at(i) == at<T>(hv_sid(lattice->coordinates(i), L)), "the field is not changed");
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    nsym = hs_parami("nsym", 0);
    int t = (int)hs_parami("type", 0);
    if (t == 0) run<double>();
    else if (t == 1) run<float>();
    else if (t == 2) run<int>();
    else run<long>();
    hs_reach("end");
}
