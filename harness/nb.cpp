// Nearest-neighbour access: f[X + d] is the value at the neighbouring site for every direction, lattice size and
// distribution over processes.
#include "hv.h"
template <typename T> void run(const char *what) {
    Field<T> f, g;
    hv_fill(f, "f");
    for (int d = 0; d < 2 * NDIM; d++) {
        Direction dir = (Direction)d;
        g[ALL] = f[X + dir];
        for (unsigned i = 0; i < hv_sites(); i++) {
            hv_is(g, i, hv_at<T>("f", lattice->coordinates(i) + hv_step(dir)), what);
        }
    }
}
extern "C" void hs_main() {
    hv_init(hv_size());
    run<double>("f[X+d] double");
    run<float>("f[X+d] float");
    run<int>("f[X+d] int");
#ifndef AVX
    run<char>("f[X+d] char");
#endif
    run<unsigned long>("f[X+d] unsigned long");
    run<long>("f[X+d] long");
    run<Complex<double>>("f[X+d] Complex");
    run<Vector<2, double>>("f[X+d] Vector");
    hs_reach("end");
}
