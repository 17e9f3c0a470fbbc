// Multicanonical weights
#include "hv.h"
#include "tools/multicanonical.cpp"
static const char *FN = "hv_muca.dat";
static int N;
static bool root() { return hila::myrank() == 0; }
// a table: rising bin centers (not evenly spaced), any weights
static void table(hila::Muca &m, bool walls) {
    m.WParam.hard_walls = walls;
    m.WParam.AR_iteration = false;
    if (!root()) return;
    m.OP_bin_centers = std::vector<double>(N);
    m.weights = std::vector<double>(N);
    for (int i = 0; i < N; i++) {
        m.OP_bin_centers[i] = hs_parami("even", 0) ? 0.25 * i - 0.25 : hs_f64("center", i, -10, 10);
        m.weights[i] = hs_f64("weight", i, -20, 20);
        if (i && !hs_parami("even", 0)) hs_assume(m.OP_bin_centers[i] > m.OP_bin_centers[i - 1] + 0.0625);
    }
}
static double want(const hila::Muca &m, double op) { // inside
    const auto &c = m.OP_bin_centers;
    const auto &w = m.weights;
    if (op <= c[0]) return w[0];
    for (int i = 0; i + 1 < N; i++)
        if (op < c[i + 1]) return (w[i] * (c[i + 1] - op) + w[i + 1] * (op - c[i])) / (c[i + 1] - c[i]);
    return w[N - 1];
}
static void weight() {
    hila::Muca &m = *new hila::Muca;
    table(m, false);
    double op = hs_f64("op", 0, -12, 12);
    double v = m.weight(op), x = 0;
    if (root()) hs_eq_f64(m.weight_function(op), want(m, op), "the weight");
    if (root()) x = want(m, op);
    hila::broadcast(x);
    hs_eq_f64(v, x, "the weight on every process");
    if (root()) { // at the bin points and beyond the ends
        for (int i = 0; i < N; i++) hs_eq_f64(m.weight_function(m.OP_bin_centers[i]), m.weights[i], "the weight at a bin point");
        double far = hs_f64("far", 0, 0, 5);
        hs_eq_f64(m.weight_function(m.OP_bin_centers[0] - far), m.weights[0], "constant below");
        hs_eq_f64(m.weight_function(m.OP_bin_centers[N - 1] + far), m.weights[N - 1], "constant above");
    }
    hs_reach("weight");
}
static void walls() {
    hila::Muca &m = *new hila::Muca;
    table(m, true);
    if (!root()) return;
    double op = hs_f64("op", 0, -12, 12), w = m.weight_function(op);
    if (op > m.OP_bin_centers[0] && op < m.OP_bin_centers[N - 1]) hs_eq_f64(w, want(m, op), "the weight between the walls"), hs_reach("inside");
    else hs_check(std::isinf(w) && w > 0, "infinite weight outside"), hs_reach("outside");
}
static void accept() {
    hila::Muca &m = *new hila::Muca;
    table(m, false);
    double a = hs_f64("old", 0, -12, 12), b = hs_f64("new", 0, -12, 12);
    hs_rng_mode(1, hila::myrank());
    bool ok = m.accept_reject(a, b);
    long draws = hs_rng_count();
    if (root()) {
        hs_eq_i64(draws, 1, "one random number");
        hs_rng_mode(1, hila::myrank());
        double r = hila::random();
        hs_check(ok == (::log(r) < -(m.weight_function(b) - m.weight_function(a))), "accepted with the ratio of the weights");
        hs_reach(ok ? "accepted" : "rejected");
    }
    int x = ok;
    hila::broadcast(x);
    hs_check(x == ok, "all processes accept");
}
// with one wall outside
static void accept_walls() {
    hila::Muca &m = *new hila::Muca;
    table(m, true);
    if (root()) for (int i = 0; i < N; i++) m.OP_bin_centers[i] = 0.25 * i - 0.25, m.weights[i] = i % 2 - 1.5;
    bool out = hs_choose("from", 0, 0, 1);
    double a = out ? 11 : 0.1, b = out ? 0.1 : 11;
    hs_rng_mode(0, 0);
    bool ok = m.accept_reject(a, b);
    hs_check(ok == out, "a step out of the walls is rejected, a step into them accepted");
}
static void parameters(hila::Muca &m, const std::string &method, int bins, int samples, int check, const char *finish, const std::string &loc) {
    if (root()) {
        std::ofstream o(FN);
        o << "weight_file_location " << loc << "\niteration_method " << method << "\nhard_walls NO\nmax_OP 0.75\nmin_OP -0.25\nnumber_of_bins " << bins << "\niteration_visuals NO\n";
        o << "DI_finish_condition " << finish << "\nDI_sample_size " << samples << "\nDI_single_check_interval " << check << "\nDI_C_init 0.3\nDI_C_min 0.15\n";
        o << "CI_sample_size " << samples << "\nCI_initial_bin_hits 5\nCI_min_bin_hits 1\nCI_max_iters " << hs_parami("maxit", 200) << "\nCI_overcorrect_factor 2.0\nCI_overcorrect_max_iter -1\nCI_overcorrect_frequency 0\n";
    }
    hila::synchronize();
    hs_check(m.initialise(FN), "initialisation");
    hila::synchronize();
}
static double center(int i) { return N > 1 ? -0.25 + i * 1.0 / (N - 1) : -0.25; }
static double limit(int i) { return -0.25 + (i - 0.5) * 1.0 / (N - 1); }
static void setup() {
    hila::Muca &m = *new hila::Muca;
    parameters(m, "direct", N, 3, 1, "all_visited", "NONE");
    hs_check(m.check_weight_iter_flag(), "the weights are to be iterated");
    if (!root()) return;
    hs_check((int)m.weights.size() == N && (int)m.OP_bin_centers.size() == N && (int)m.OP_bin_limits.size() == N + 1, "number of bins");
    for (int i = 0; i < N; i++) {
        hs_eq_f64(m.OP_bin_centers[i], center(i), "bin centers from the smallest to the largest value");
        hs_check(m.weights[i] == 0 && m.OP_bin_hits[i] == 0 && m.OP_bin_hits_total[i] == 0, "nothing yet");
    }
    for (int i = 0; i <= N; i++) hs_eq_f64(m.OP_bin_limits[i], limit(i), "bin limits");
    hs_check(!m.WParam.hard_walls && m.DI.C == 0.3, "parameters");
    hs_reach("setup");
}
// a history of measurements
static void direct() {
    int kind = hs_parami("kind", 0); // 0 direct, 1 single, 2 smooth
    int steps = hs_parami("steps", 4), samples = kind == 1 ? 1 : hs_parami("samples", 2), every = hs_parami("every", 2);
    bool ends = hs_parami("ends", 0);
    hila::Muca &m = *new hila::Muca;
    parameters(m, kind == 2 ? "direct_smooth" : "direct", N, samples, every, ends ? "ends_visited" : "all_visited", "NONE");
    double w[8] = {}, C = 0.3;
    int hits[8] = {}, total[8] = {};
    for (int s = 0; s < steps; s++) {
        double op = hs_f64("op", s, -1, 1.5);
        int bin = -1;
        for (int i = 0; i < N; i++) if (op > m.WParam.min_OP + (i - 0.5) / (N - 1) && op <= m.WParam.min_OP + (i + 0.5) / (N - 1)) bin = i;
        if (op >= m.WParam.min_OP + (N - 0.5) / (N - 1)) bin = -1;
        bool go = m.iterate_weights(m, op), more = true;
        if (bin >= 0) {
            if (kind == 2) {
                static const int k[5] = {1, 3, 5, 3, 1};
                for (int d = -2; d <= 2; d++) if (bin + d >= 0 && bin + d < N) hits[bin + d] += k[d + 2];
            } else if (kind == 1) total[bin]++, w[bin] += C;
            else hits[bin]++;
        }
        int n = kind == 1 ? every : samples;
        if ((s + 1) % n == 0) {
            double base = 1e30;
            for (int i = 0; i < N; i++) {
                if (kind == 0) w[i] += C * hits[i] * N / samples;
                if (kind == 2) w[i] += C * (hits[i] - hits[0]) / N;
                if (kind != 1) total[i] += hits[i];
            }
            for (int i = 0; i < N; i++) hits[i] = 0;
            if (kind != 2) {
                for (int i = 0; i < N; i++) if (w[i] < base) base = w[i];
                for (int i = 0; i < N; i++) w[i] -= base;
            }
            bool all = true;
            for (int i = 0; i < N; i++) if (total[i] == 0 && (!ends || i == 0 || i == N - 1)) all = false;
            if (all) {
                C /= 1.5;
                hs_reach("finer");
                for (int i = 0; i < N; i++) total[i] = 0;
            }
        }
        if (kind != 1 || (s + 1) % every == 0) more = !(C < 0.15);
        hs_check(go == more, "whether to go on");
        if (root()) {
            for (int i = 0; i < N; i++) hs_eq_f64(m.weights[i], w[i], "weights after a measurement");
            for (int i = 0; i < N; i++) hs_check(m.OP_bin_hits_total[i] == total[i] && m.OP_bin_hits[i] == hits[i], "counts after a measurement");
            hs_eq_f64(m.DI.C, C, "size of the next update");
        }
        if (!more) { hs_reach("done"); break; }
    }
}
// the first update of the canonical method: every weight is 0 and the histogram counts the measurements
static void canonical() {
    int samples = hs_parami("samples", 3);
    hila::Muca &m = *new hila::Muca;
    parameters(m, "canonical", N, samples, 1, "all_visited", "NONE");
    int hits[8] = {};
    bool go = false;
    for (int s = 0; s < samples; s++) {
        int b = hs_choose("bin", s, 0, N);
        go = m.iterate_weights(m, b == N ? 3.0 : center(b) + 0.01);
        if (b < N) hits[b]++;
        hs_check(go, "not yet finished");
    }
    if (!root()) return;
    double w[8] = {}, oc[8];
    for (int i = 1; i < N; i++) {
        if (hits[i] >= 1 && hits[i - 1] >= 1) {
            int g = hits[i] + hits[i - 1];
            w[i] = w[i - 1] - g * ::log((double)hits[i - 1] / hits[i]) / (5 + g);
            hs_reach("update");
        } else w[i] = w[i - 1];
    }
    for (int i = 0; i < N; i++) {
        oc[i] = w[i] + 2.0 * ::log((1.0 + hits[i]) / (1.0 + hits[0]));
        double d = m.weights[i] - oc[i], e = m.CI.noc_weights[i] - w[i];
        hs_check(d < 1e-9 && d > -1e-9, "weights after the update");
        hs_check(e < 1e-9 && e > -1e-9, "weights without overcorrection");
        hs_check(m.OP_bin_hits[i] == 0 && m.CI.can_hist[i] == 0, "counts begin again");
    }
}
// a table in a file, with and without lines before it
static void file() {
    static const double W[3] = {0, -1.5, 2.25}, LIM[5] = {-1, 0.5, 0.75, 2, 4.5};
    hila::Muca &m = *new hila::Muca;
    if (root()) {
        m.OP_bin_limits = std::vector<double>(N + 1);
        m.OP_bin_centers = std::vector<double>(N);
        m.weights = std::vector<double>(N);
        for (int i = 0; i <= N; i++) m.OP_bin_limits[i] = LIM[i];
        for (int i = 0; i < N; i++) m.OP_bin_centers[i] = (LIM[i] + LIM[i + 1]) / 2, m.weights[i] = W[hs_choose("weight", i, 0, 2)];
        hs_check(m.write_weight_function("hv_weights.dat"), "the table is written");
    }
    hila::synchronize();
    hila::Muca &r = *new hila::Muca;
    parameters(r, "direct", 9, 1, 1, "all_visited", "hv_weights.dat");
    if (root()) {
        hs_check((int)r.weights.size() == N && (int)r.OP_bin_centers.size() == N && (int)r.OP_bin_limits.size() == N + 1, "size of the table");
        for (int i = 0; i < N; i++) hs_check(r.weights[i] == m.weights[i] && r.OP_bin_centers[i] == m.OP_bin_centers[i], "the table that was written");
        for (int i = 0; i <= N; i++) hs_check(r.OP_bin_limits[i] == LIM[i], "the bin limits that were written");
        hs_check((int)r.OP_bin_hits.size() == N && (int)r.OP_bin_hits_total.size() == N, "counters for every bin");
    }
    hs_reach("file");
}
// weights that are iterated by accept_reject
static void continuous() {
    hila::Muca &m = *new hila::Muca;
    parameters(m, "direct", N, 1, 1, "all_visited", "NONE");
    m.set_continuous_iteration(true);
    hs_rng_mode(0, 0);
    double op = -0.25, C = 0.3;
    int n[8] = {}, done[8] = {};
    bool go = true;
    for (int s = 0; s < 4 && go; s++) {
        int b = hs_choose("bin", s, 0, N - 1);
        double next = center(b) + 0.001;
        bool ok = m.accept_reject(op, next);
        if (ok) op = next;
        int at = 0;
        for (int i = 0; i < N; i++) if (op > limit(i)) at = i;
        n[at]++, done[at]++;
        bool all = true;
        for (int i = 0; i < N; i++) if (!done[i]) all = false;
        if (all) { C /= 1.5; for (int i = 0; i < N; i++) done[i] = 0; }
        go = !(C < 0.15);
        hs_check(m.check_weight_iter_flag() == go, "whether the iteration goes on");
        if (root()) hs_eq_f64(m.DI.C, C, "size of the update");
    }
    hs_reach("continuous");
}
extern "C" void hs_main() {
    CoordinateVector L;
    for (int d = 0; d < NDIM; d++) L[d] = 4;
    hv_init(L);
    N = hs_parami("N", 3);
    switch (hs_parami("what", 0)) {
    case 0: weight(); break;
    case 1: walls(); break;
    case 2: accept(); break;
    case 3: accept_walls(); break;
    case 4: setup(); break;
    case 5: direct(); break;
    case 6: canonical(); break;
    case 7: file(); break;
    case 8: continuous(); break;
    }
    hs_reach("end");
}
