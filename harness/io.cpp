// Fields in files: what is written is read back, the file holds the sites in coordinate order, whatever the process grid.
#include "hv.h"
static CoordinateVector L;
static long V;
static const char *FN = "hv_io.dat";
// every process looks at the file itself
template <typename T> static void file_is(long off, const char *n, const char *msg) {
    std::ifstream in(FN, std::ios::in | std::ios::binary);
    in.seekg(off);
    for (long k = 0; k < V; k++) {
        T x, y = hv_val<T>(n, k);
        in.read((char *)&x, sizeof(T));
        hs_check(!in.fail(), "file too short");
        hv_same(x, y, msg);
    }
}
static void file_ends(long off) {
    std::ifstream in(FN, std::ios::in | std::ios::binary);
    in.seekg(0, std::ios::end);
    hs_check((long)in.tellg() == off, "length of the file");
}
template <typename T> static void field_is(const Field<T> &f, const char *n, const char *msg) {
    for (unsigned i = 0; i < hv_sites(); i++) hv_is(f, i, hv_at<T>(n, lattice->coordinates(i)), msg);
}
template <typename T> static void halo_is(const Field<T> &f, const char *n, const char *msg) {
    Field<T> g;
    for (int d = 0; d < NDIRS; d++) {
        Direction dir = (Direction)d;
        g[ALL] = f[X + dir];
        for (unsigned i = 0; i < hv_sites(); i++) hv_is(g, i, hv_at<T>(n, lattice->coordinates(i) + hv_step(dir)), msg);
    }
}
template <typename T> static void binary() {
    Field<T> f, g, h;
    hv_fill(f, "f");
    hv_fill(g, "g");
    hv_fill(h, "h");
    halo_is(h, "h", "neighbours before");
    f.write(FN);
    hila::synchronize();
    file_is<T>(0, "f", "file after write");
    file_ends(V * sizeof(T));
    h.read(FN);
    field_is(h, "f", "field read back");
    field_is(f, "f", "field that was written");
    halo_is(h, "f", "neighbours of the field read back");
    // two fields one after the other in one stream
    hila::synchronize();
    {
        std::ofstream o;
        hila::open_output_file(FN, o);
        g.write(o);
        f.write(o);
        hila::close_file(FN, o);
    }
    hila::synchronize();
    file_is<T>(0, "g", "first field in the stream");
    file_is<T>(V * sizeof(T), "f", "second field in the stream");
    file_ends(2 * V * sizeof(T));
    {
        Field<T> a, b;
        std::ifstream o;
        hila::open_input_file(FN, o);
        a.read(o);
        b.read(o);
        hila::close_file(FN, o);
        field_is(a, "g", "first field from the stream");
        field_is(b, "f", "second field from the stream");
    }
    hila::synchronize();
    write_fields(FN, f, g, f);
    hila::synchronize();
    file_is<T>(0, "f", "write_fields, first");
    file_is<T>(V * sizeof(T), "g", "write_fields, second");
    file_is<T>(2 * V * sizeof(T), "f", "write_fields, third");
    file_ends(3 * V * sizeof(T));
    Field<T> a, b, c;
    read_fields(FN, a, b, c);
    field_is(a, "f", "read_fields, first");
    field_is(b, "g", "read_fields, second");
    field_is(c, "f", "read_fields, third");
}
// sub-volumes and slices
template <typename T> static void sub() {
    using A = hila::arithmetic_type<T>;
    const long ne = sizeof(T) / sizeof(A);
    Field<T> f;
    hv_fill(f, "f");
    CoordinateVector a, b;
    int how = (int)hs_choose("how", 0, 0, 3);
    if (how < 2) {
        for (int d = 0; d < NDIM; d++) {
            a[d] = hs_choose("a", d, 0, L[d] - 1);
            b[d] = hs_choose("b", d, a[d], L[d] - 1);
        }
        f.write_subvolume_binary(FN, a, b, how == 1);
    } else {
        CoordinateVector s;
        for (int d = 0; d < NDIM; d++) {
            s[d] = hs_choose("s", d, -1, L[d] - 1);
            a[d] = s[d] < 0 ? 0 : s[d];
            b[d] = s[d] < 0 ? L[d] - 1 : s[d];
        }
        f.write_slice_binary(FN, s, how == 3);
    }
    bool fl = how & 1;
    hila::synchronize();
    std::ifstream in(FN, std::ios::in | std::ios::binary);
    long n = 0;
    for (long k = 0; k < V; k++) {
        CoordinateVector c = hv_coord(k, L);
        bool inside = true;
        for (int d = 0; d < NDIM; d++) inside = inside && c[d] >= a[d] && c[d] <= b[d];
        if (!inside) continue;
        T y = hv_val<T>("f", k);
        for (long e = 0; e < ne; e++) {
            A ya = hila::get_number_in_var(y, e);
            if (fl) {
                float x = 0;
                in.read((char *)&x, sizeof x);
                hv_same(x, (float)ya, "number in sub-volume as float");
                n += sizeof x;
            } else {
                A x = 0;
                in.read((char *)&x, sizeof x);
                hv_same(x, ya, "number in sub-volume");
                n += sizeof x;
            }
        }
        hs_check(!in.fail(), "file too short");
    }
    file_ends(n);
}
// text output (concrete values), and a smaller lattice read into a larger one
template <typename T> static void text() {
    Field<int> f;
    f.allocate();
    for (unsigned i = 0; i < hv_sites(); i++) f.set_value_at(7 * (int)hv_sid(lattice->coordinates(i), L) - 20, i);
    f.mark_changed(ALL);
    int how = (int)hs_choose("how", 0, 0, 1);
    CoordinateVector a, b;
    for (int d = 0; d < NDIM; d++) {
        a[d] = how ? hs_choose("a", d, 0, L[d] - 1) : 0;
        b[d] = how ? hs_choose("b", d, a[d], L[d] - 1) : L[d] - 1;
    }
    if (how) f.write_subvolume(FN, a, b);
    else f.write(FN, false);
    hila::synchronize();
    std::ifstream in(FN);
    std::string line;
    for (long k = 0; k < V; k++) {
        CoordinateVector c = hv_coord(k, L);
        bool inside = true;
        for (int d = 0; d < NDIM; d++) inside = inside && c[d] >= a[d] && c[d] <= b[d];
        if (!inside) continue;
        int x = 0;
        in >> x;
        hs_check(!in.fail(), "number missing in text file");
        hs_check(x == 7 * k - 20, "number in text file");
    }
    int y;
    in >> y;
    hs_check(in.fail(), "too much in the text file");
}
template <typename T> static void scaled() {
    CoordinateVector S;
    long vs = 1;
    for (int d = 0; d < NDIM; d++) {
        S[d] = hs_choose("S", d, 1, L[d]);
        if (L[d] % S[d]) return;
        vs *= S[d];
    }
    if (hila::myrank() == 0) {
        std::ofstream o(FN, std::ios::out | std::ios::binary);
        for (long k = 0; k < vs; k++) {
            T x = hv_val<T>("f", k);
            o.write((char *)&x, sizeof(T));
        }
    }
    hila::synchronize();
    Field<T> f;
    std::ifstream in;
    hila::open_input_file(FN, in);
    f.read(in, S);
    hila::close_file(FN, in);
    for (unsigned i = 0; i < hv_sites(); i++) hv_is(f, i, hv_val<T>("f", hv_sid(hv_wrap(lattice->coordinates(i), S), S)), "replicated field");
}
template <typename T> static void run(int what) {
    if (what == 0) binary<T>();
    if (what == 1) sub<T>();
    if (what == 2) text<T>();
    if (what == 3) scaled<T>();
}
extern "C" void hs_main() {
    L = hv_size();
    hv_init(L);
    V = hv_volume(L);
    int what = (int)hs_parami("what", 0);
    switch (hs_parami("type", 0)) {
    case 0: run<double>(what); break;
    case 1: run<int>(what); break;
    case 2: run<Complex<float>>(what); break;
    default: run<Vector<3, double>>(what);
    }
    hs_reach("end");
}
