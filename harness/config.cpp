// Gauge configuration files
#include "hv.h"
#include "gaugefield.h"
static CoordinateVector L;
static long V;
static const char *FN = "hv_conf.dat";
static const char *nm[] = {"u0", "u1", "u2", "u3"};
using T = SU<2, double>;
static const long FLAG = 394824242;
template <typename G> static void field_is(G &U, const CoordinateVector &S, const char *msg) {
    for (int d = 0; d < NDIM; d++)
        for (unsigned i = 0; i < hv_sites(); i++) hv_is(U[(Direction)d], i, hv_val<T>(nm[d], hv_sid(hv_wrap(lattice->coordinates(i), S), S)), msg);
}
static void roundtrip() {
    GaugeField<T> U, W;
    for (int d = 0; d < NDIM; d++) hv_fill(U[(Direction)d], nm[d]);
    U.config_write(FN);
    hila::synchronize();
    std::ifstream in(FN, std::ios::in | std::ios::binary);
    int64_t x;
    for (int k = 0; k < 3 + NDIM; k++) {
        in.read((char *)&x, sizeof x);
        hs_check(x == (k == 0 ? FLAG : k == 1 ? NDIM : k == 2 ? (long)sizeof(T) : L[k - 3]), "header");
    }
    for (int d = 0; d < NDIM; d++)
        for (long k = 0; k < V; k++) {
            T y;
            in.read((char *)&y, sizeof y);
            hv_same(y, hv_val<T>(nm[d], k), "links in coordinate order");
        }
    W.config_read(FN);
    field_is(W, L, "configuration read back");
    field_is(U, L, "configuration that was written");
    hila::synchronize();
    W.write(FN);
    GaugeField<T> Y;
    hila::synchronize();
    Y.read(FN);
    field_is(Y, L, "gauge field read back");
}
// any header, and any length of the file
static void foreign() {
    int64_t h[3 + NDIM];
    CoordinateVector S;
    int bad = (int)hs_choose("bad", 0, -1, 2 + NDIM);
    h[0] = FLAG;
    h[1] = NDIM;
    h[2] = sizeof(T);
    long vs = 1;
    for (int d = 0; d < NDIM; d++) {
        S[d] = hs_choose("S", d, 1, L[d]);
        h[3 + d] = S[d];
        vs *= S[d];
    }
    if (bad >= 0 && bad < 3) h[bad] = hs_int("h", bad, -(1L << 62), 1L << 62);
    if (bad >= 3) {
        static const long odd[] = {0, -1, -4, 8, (1L << 32) + 4, (1L << 32) + 1, -(1L << 32) + 4, 3};
        h[bad] = odd[hs_choose("odd", 0, 0, 7)];
    }
    long miss = hs_choose("miss", 0, 0, 2); // bytes missing at the end: none, one, nearly all of the links
    if (hila::myrank() == 0) {
        std::ofstream o(FN, std::ios::out | std::ios::binary);
        o.write((char *)h, sizeof h);
        for (int d = 0; d < NDIM; d++)
            for (long k = 0; k < vs; k++) {
                T y = hv_val<T>(nm[d], k);
                if (miss == 2 && (d > 0 || k > 0)) continue;
                o.write((char *)&y, miss == 1 && d == NDIM - 1 && k == vs - 1 ? sizeof y - 1 : sizeof y);
            }
    }
    hila::synchronize();
    bool right = h[0] == FLAG && h[1] == NDIM && h[2] == (long)sizeof(T);
    for (int d = 0; d < NDIM; d++) right = right && h[3 + d] > 0 && h[3 + d] <= L[d] && L[d] % h[3 + d] == 0;
    bool all = miss == 0 || (miss == 2 && NDIM * vs == 1);
    if (!right || !all) hs_allow_exit();
    GaugeField<T> U;
    U.config_read(FN);
    hs_check(right, "a foreign header is accepted");
    hs_check(all, "an incomplete file is accepted");
    field_is(U, S, "configuration of a smaller lattice, repeated");
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    if (hs_parami("what", 0) == 0) roundtrip();
    else foreign();
    hs_reach("end");
}
