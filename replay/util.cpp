// Executable contracts for the array helpers (P20), text files (P21) and the read-noise estimator (P22).
#include "common.hpp"
#include <fcntl.h>
#include <memory>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "read_noise.hpp"
#include "util.hpp"
#include <iostream>
typedef std::valarray<std::valarray<double> > Im;
static std::string S(int x) { return std::to_string(x); }
static double value(Draw& d) { switch (d.i(0, 5)) { case 0: return 0; case 1: return d.u(-1, 1); case 2: return d.lu(1e-6, 1e6); case 3: return -d.lu(1e-6, 1e6); case 4: return d.i(-1000, 1000); default: return d.lu(1, 1e9); } }
static Im image(Draw& d, int most) { int rows = d.i(1, most), cols = d.i(1, most); Im m(std::valarray<double>(0.0, cols), rows); for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) m[r][c] = value(d); d.note("image " + S(rows) + "x" + S(cols)); return m; }
static void P20(Draw& d) {
    Im m = image(d, d.one_in(20) ? 160 : 9); double a = value(d), step = d.one_in(3) ? d.i(1, 4) : d.lu(0.01, 10), n = d.u(-2, 30); if (d.one_in(3)) a = d.i(-20, 20); double stop = d.one_in(3) ? a + step * d.i(-3, 30) : a + step * n; double x = value(d), lo = value(d), hi = lo + std::fabs(value(d));
    if (d.one_in(6)) x = lo; else if (d.one_in(6)) x = hi;
    d.note("range " + num(a) + " " + num(stop) + " " + num(step) + " clamp " + num(x) + " " + num(lo) + " " + num(hi)); d.go();
    size_t R = m.size(), C = m[0].size(); Im keep = m; Im t = transpose(m); CHECK(t.size() == C, "transposed rows " + S(t.size()));
    for (size_t c = 0; c < C; c++) { CHECK(t[c].size() == R, "transposed columns " + S(t[c].size())); for (size_t r = 0; r < R; r++) CHECK(t[c][r] == m[r][c], "transposed pixel " + S(r) + "," + S(c)); }
    Im u = transpose(t); CHECK(u.size() == R, "shape"); for (size_t r = 0; r < R; r++) { CHECK(u[r].size() == C, "shape"); for (size_t c = 0; c < C; c++) CHECK(u[r][c] == keep[r][c] && m[r][c] == keep[r][c], "twice transposed pixel " + S(r) + "," + S(c)); }
    std::vector<double> f = flatten(m); CHECK(f.size() == R * C, "flattened size " + S(f.size())); for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) CHECK(f[r * C + c] == m[r][c], "flattened pixel " + S(r) + "," + S(c));
    std::valarray<double> g = arange(a, stop, step); double eps = 1e-12 * (std::fabs(a) + std::fabs(stop) + step) * (g.size() + 1); size_t least = 0, most = 0; while (a + least * step < stop - eps) least++; while (a + most * step < stop + eps) most++;
    bool whole = a == std::floor(a) && step == std::floor(step); if (whole) { least = 0; while (a + least * step < stop) least++; most = least; } // no rounding at all
    CHECK(g.size() >= least && g.size() <= most, "range has " + S(g.size()) + " values, not " + S(least)); for (size_t k = 0; k < g.size(); k++) CHECK(std::fabs(g[k] - (a + k * step)) <= eps, "range value " + S(k) + " " + num(g[k]));
    std::valarray<double> h = arange(std::floor(a), std::floor(stop)); CHECK((double)h.size() == std::max(0.0, std::floor(stop) - std::floor(a)), "default step: size " + S(h.size()));
    double y = clamp(x, lo, hi); CHECK(y == (x < lo ? lo : x > hi ? hi : x), "clamped to " + num(y));
}
static void P21(Draw& d) {
    Im m = image(d, 12); d.go(); std::string f = d.out + ".image.txt"; if (d.out.empty()) f = "/tmp/vf_image_" + S(getpid()) + ".txt"; save_image_to_txt(f.c_str(), m);
    Im g; { g = load_image_from_txt(f.c_str()); } unlink(f.c_str()); CHECK(g.size() == m.size(), "rows " + S(g.size()));
    for (size_t r = 0; r < m.size(); r++) { CHECK(g[r].size() == m[r].size(), "columns " + S(g[r].size())); for (size_t c = 0; c < m[r].size(); c++) CHECK(std::fabs(g[r][c] - m[r][c]) <= 0.5000001e-6 + 1e-15 * std::fabs(m[r][c]), "pixel " + S(r) + "," + S(c) + " " + num(m[r][c]) + " -> " + num(g[r][c])); }
}
struct Quiet { int save; Quiet() { fflush(stdout); std::cout.flush(); save = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); std::cout.flush(); dup2(save, 1); close(save); } };
static std::vector<double> run(const std::vector<double>& in, const std::vector<double>& out, int rows, int cols, double amp, double fr, int smooth, int threads) {
#ifdef _OPENMP
    omp_set_num_threads(threads);
#endif
    std::unique_ptr<double[]> a(new double[in.size()]), b(new double[in.size()]), r(new double[in.size()]); for (size_t k = 0; k < in.size(); k++) { a[k] = in[k]; b[k] = out[k]; r[k] = 1e300; }
    { Quiet q; determine_read_noise_model(a.get(), b.get(), rows, cols, amp, fr, smooth, r.get()); }
    for (size_t k = 0; k < in.size(); k++) CHECK(a[k] == in[k] && b[k] == out[k], "an input image changed at " + S(k)); return std::vector<double>(r.get(), r.get() + in.size());
}
static double clip(double x, double c) { return std::max(std::min(x, c), -c); }
static void P22(Draw& d) {
    int rows = d.one_in(4) ? 2 : d.i(2, 8), cols = d.one_in(4) ? 2 : d.i(2, 8), smooth = d.i(0, 1), T = d.i(2, 6); double amp = d.lu(0.1, 20), fr = d.lu(0.05, 2), sc = d.lu(0.1, 100); std::vector<double> in(rows * cols), out(rows * cols);
    for (double& x : in) x = d.u(0, sc); for (size_t k = 0; k < out.size(); k++) out[k] = d.one_in(3) ? in[k] : in[k] + sc * d.u(-0.3, 0.3); d.note(S(rows) + "x" + S(cols) + " amplitude " + num(amp) + " fraction " + num(fr) + " smooth " + S(smooth) + " threads " + S(T)); d.go();
    std::vector<double> r = run(in, out, rows, cols, amp, fr, smooth, 1), q = run(in, out, rows, cols, amp, fr, smooth, T);
    double c = amp * fr, a2 = amp * amp;
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { int k = i * cols + j; CHECK(r[k] == q[k], "pixel " + S(i) + "," + S(j) + " with " + S(T) + " threads " + num(q[k]) + " not " + num(r[k]));
        double own = in[k] - out[k], sum = 0; int n = 0; for (int y = i - 1; y <= i + 1; y++) for (int x = j - 1; x <= j + 1; x++) if (y >= 0 && y < rows && x >= 0 && x < cols) { sum += in[y * cols + x] - out[y * cols + x]; n++; }
        double avg = sum / n, e = clip(own, 1) * own * own / (own * own + 4 * a2) + clip(avg, c) * avg * avg / (avg * avg + 18 * a2); auto nb = [&](int y, int x) { double v = y < 0 || y >= rows || x < 0 || x >= cols ? 0 : out[y * cols + x] - out[k]; return clip(v, c) * 4 * a2 / (v * v + 4 * a2); };
        e += nb(i - 1, j) + nb(i + 1, j); if (smooth) { e += nb(i, j - 1) + nb(i, j + 1); e /= 6; } else e /= 4;
        CHECK(std::fabs(e - r[k]) <= 1e-9 * (1 + c), "pixel " + S(i) + "," + S(j) + " " + num(r[k]) + " not " + num(e)); }
}
int main(int c, char** v) { set_verbosity(0); return common_main(c, v, {{"P20", P20}, {"P21", P21}, {"P22", P22}}); }
