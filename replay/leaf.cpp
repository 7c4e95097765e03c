// Executable contracts for the leaf numerics (P14-P17).
#include "common.hpp"
#include <limits>
#include "ccd.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"
static std::string S(int x) { return std::to_string(x); }
static void P14(Draw& d) {
    double full = d.lu(1, 1e6), notch = d.one_in(2) ? 0 : full * d.u(-0.2, 0.99), power = d.one_in(4) ? 1 : d.lu(0.05, 5), first = d.one_in(2) ? 0 : (d.one_in(8) ? 1 : d.u());
    double ns[6]; for (double& n : ns) switch (d.i(0, 7)) { case 0: n = 0; break; case 1: n = -d.lu(1e-3, 1e6); break; case 2: n = full; break; case 3: n = notch; break; case 4: n = full * d.u(1, 3); break; case 5: n = d.lu(1e-300, 1); break; default: n = full * d.u(); }
    std::sort(ns, ns + 6); d.note("full=" + num(full) + " notch=" + num(notch) + " power=" + num(power) + " first=" + num(first)); d.go();
    CCDPhase c(full, notch, power, first); std::valarray<CCDPhase> ph(c, 2); std::valarray<double> fr(0.5, 2); CCD ccd(ph, fr), one(c);
    double last = -1;
    for (int k = 0; k < 6; k++) { double n = ns[k], v = c.cloud_fractional_volume_from_electrons(n); std::string at = " for " + num(n) + " electrons";
        CHECK(v >= 0 && v <= 1 + 1e-12, "volume " + num(v) + at);
        CHECK(v == ccd.phases[1].cloud_fractional_volume_from_electrons(n) && v == one.phases[0].cloud_fractional_volume_from_electrons(n), "phase copied into the CCD differs" + at);
        if (n <= 0) CHECK(v == first, "volume " + num(v) + " instead of the first-electron fill" + at);
        if (n >= full) CHECK(std::fabs(v - 1) < 1e-12, "volume " + num(v) + " at or above full well" + at);
        CHECK(v >= last - 1e-13, "volume falls from " + num(last) + " to " + num(v) + at); last = v; }
}
static double H(double a, double b, double v) { // integral of the exposure density from 0 to v
    if (b <= a) return std::max(0.0, v - b);
    if (v <= a) return 0;
    if (v >= b) return (b - a) / 2 + (v - b);
    return (v - a) * (v - a) / (2 * (b - a));
}
static void P15(Draw& d) {
    double a = d.one_in(4) ? 0 : d.u(), b = d.one_in(5) ? a : a + (1 - a) * d.u(), dens = d.lu(0.1, 1e3); if (d.one_in(6)) a = b = 0; if (b >= 1 - 1e-9) b = a = 0.5;
    if (b - a < 1e-3) b = a;
    double v[3]; for (double& x : v) x = d.one_in(6) ? a : d.one_in(6) ? b : d.u(); std::sort(v, v + 3);
    d.note("none=" + num(a) + " full=" + num(b) + " range " + num(v[0]) + "," + num(v[1]) + "," + num(v[2])); d.go();
    TrapInstantCapture t(dens, 1.0, a, b); double G[3];
    for (int k = 0; k < 3; k++) { double lo = v[k == 2 ? 0 : k], hi = v[k == 2 ? 2 : k + 1], r = t.fraction_traps_exposed_per_fractional_volume(lo, hi);
        CHECK(r >= -1e-9 && r <= 1 + 1e-9 + (hi > lo ? 1e-12 / (hi - lo) : 0), "exposed fraction " + num(r) + " for " + num(lo) + ".." + num(hi));
        G[k] = r * (hi - lo);
        CHECK(std::fabs(G[k] - (H(a, b, hi) - H(a, b, lo))) < 1e-12, "exposed amount " + num(G[k]) + " instead of " + num(H(a, b, hi) - H(a, b, lo)) + " for " + num(lo) + ".." + num(hi)); }
    CHECK(std::fabs(G[0] + G[1] - G[2]) < 1e-12, "adjoining ranges add up to " + num(G[0] + G[1]) + " not " + num(G[2]));
    CHECK(std::fabs(t.density * (b > 0 ? H(a, b, 1) : 1) - dens) < 1e-9 * dens, "density per pixel " + num(t.density * H(a, b, 1)) + " instead of " + num(dens));
}
static void P16(Draw& d) {
    int n = d.i(1, 4); double dwell = d.lu(1e-3, 1e3); std::vector<double> rel, cap;
    for (int k = 0; k < n; k++) { rel.push_back(d.lu(1e-3, 1e6)); cap.push_back(d.one_in(4) ? 0 : d.lu(1e-4, 1e3)); }
    d.note("dwell=" + num(dwell)); for (int k = 0; k < n; k++) d.note("(" + num(rel[k]) + "," + num(cap[k]) + ")"); d.go();
    std::valarray<TrapInstantCapture> a(TrapInstantCapture(1, 1), n); std::valarray<TrapSlowCapture> b(TrapSlowCapture(1, 1, 0), n);
    for (int k = 0; k < n; k++) { a[k] = TrapInstantCapture(10, rel[k]); b[k] = TrapSlowCapture(10, rel[k], cap[k]); }
    CCDPhase ph(1e4, 0, 0.6); TrapManagerInstantCapture A(a, 5, ph, dwell); TrapManagerSlowCapture B(b, 5, ph, dwell); A.setup(); B.setup();
    for (int k = 0; k < n; k++) { double r = 1 / rel[k], c = cap[k] ? 1 / cap[k] : 0, p = -std::expm1(-dwell / rel[k]); std::string at = " for release " + num(rel[k]) + " capture " + num(cap[k]) + " dwell " + num(dwell);
        CHECK(std::fabs(A.empty_probabilities_from_release[k] - p) < 1e-12, "instant capture empties " + num(A.empty_probabilities_from_release[k]) + at);
        CHECK(std::fabs(a[k].fill_fraction_from_time_elapsed(dwell) - (1 - p)) < 1e-12, "fill fraction after one dwell" + at);
        CHECK(std::fabs(B.empty_probabilities_from_release[k] - p) < 1e-12, "slow capture empties " + num(B.empty_probabilities_from_release[k]) + at);
        double pe = B.fill_probabilities_from_empty[k], pf = B.fill_probabilities_from_full[k];
        CHECK(pe >= -1e-12 && pf <= 1 + 1e-12 && pf >= pe - 1e-12, "probabilities from empty " + num(pe) + " from full " + num(pf) + at);
        if (c == 0) CHECK(pe == 1, "instant capture fills with probability " + num(pe) + at);
        else { double E = -std::expm1(-(r + c) * dwell) / (r + c);
            CHECK(std::fabs(pe - c * E) < 1e-9, "fill probability from empty " + num(pe) + " instead of " + num(c * E) + at);
            CHECK(std::fabs(pf - (1 - r * E)) < 1e-9, "fill probability from full " + num(pf) + " instead of " + num(1 - r * E) + at); } }
}
template <class T> void tables(Draw& d, T& t, double tmin, double tmax, int n, std::vector<double> ts, std::vector<double> fs) {
    t.prep_fill_fraction_and_time_elapsed_tables(tmin, tmax, n);
    CHECK((int)t.fill_fraction_table.size() == n, "table size");
    for (int i = 0; i < n; i++) { CHECK(t.fill_fraction_table[i] >= 0 && t.fill_fraction_table[i] <= 1 + 1e-6, "table entry " + S(i) + " is " + num(t.fill_fraction_table[i]));
        if (i) CHECK(t.fill_fraction_table[i] >= t.fill_fraction_table[i - 1] - 0.1, "table falls at " + S(i) + " by " + num(t.fill_fraction_table[i - 1] - t.fill_fraction_table[i])); }
    // quadrature noise (property P29, not decided here) can make neighbouring entries fall a little
    double fall = 0, top = 0; for (int i = 0; i < n; i++) { fall = std::max(fall, top - t.fill_fraction_table[i]); top = std::max(top, t.fill_fraction_table[i]); }
    double tol = fall == 0 ? 1e-9 : std::max(1e-2, 2 * fall);
    std::sort(ts.begin(), ts.end()); double last = 2;
    for (double x : ts) { double f = t.fill_fraction_from_time_elapsed_table(x); CHECK(f >= 0 && f <= 1, "fill " + num(f) + " after " + num(x)); CHECK(f <= last + tol, "fill rises to " + num(f) + " at " + num(x)); last = f; }
    CHECK(t.fill_fraction_from_time_elapsed_table(0) == 1, "not full at time zero"); CHECK(t.fill_fraction_from_time_elapsed_table(std::numeric_limits<double>::max()) == 0, "not empty at the end");
    CHECK(t.fill_fraction_from_time_elapsed_table(-1) == 0, "unset level not empty");
    for (double f : fs) { double x = t.time_elapsed_from_fill_fraction_table(f); CHECK(x >= 0, "time " + num(x) + " for fill " + num(f));
        if (f < 1 && x < 1e-290) continue; // the exponential underflows: machine arithmetic, outside the contract
        double g = t.fill_fraction_from_time_elapsed_table(x); CHECK(std::fabs(g - f) < tol, "fill " + num(f) + " -> time " + num(x) + " -> fill " + num(g));
        double y = t.time_elapsed_from_fill_fraction_table(f), later = t.fill_fraction_from_time_elapsed_table(y + tmin); CHECK(later <= f + tol, "fill grows from " + num(f) + " to " + num(later)); }
}
static void P17(Draw& d) {
    bool slow = d.one_in(2); int N = d.i(1, d.one_in(3) ? 500 : 20); double dwell = d.one_in(2) ? 1 : d.lu(0.1, 5), rel = d.lu(0.3, 50), sig = d.lu(0.05, 1), cap = d.one_in(5) ? 0 : d.lu(0.01, 1);
    std::vector<double> ts, fs; for (int k = 0; k < 12; k++) { ts.push_back(dwell * (d.one_in(4) ? d.lu(1e-6, 1e6) : d.u(0, N))); fs.push_back(d.one_in(6) ? d.lu(1e-12, 1) : d.u()); }
    fs.push_back(0); fs.push_back(1); ts.push_back(0); for (int k = 0; k < 3; k++) fs.push_back(1 - d.lu(1e-9, 1e-2));
    d.note(std::string(slow ? "slow" : "instant") + " N=" + S(N) + " dwell=" + num(dwell) + " release=" + num(rel) + " sigma=" + num(sig) + " capture=" + num(cap)); d.go();
    CCDPhase ph(1e4, 0, 0.6);
    if (!slow) { TrapInstantCaptureContinuum t(10, rel, sig); TrapManagerInstantCaptureContinuum m(std::valarray<TrapInstantCaptureContinuum>(t, 1), N, ph, dwell); m.setup();
        tables(d, m.traps[0], m.time_min, m.time_max, m.n_intp, ts, fs); }
    else { TrapSlowCaptureContinuum t(10, rel, sig, cap); TrapManagerSlowCaptureContinuum m(std::valarray<TrapSlowCaptureContinuum>(t, 1), N, ph, dwell); m.setup();
        tables(d, m.traps[0], m.time_min, m.time_max, m.n_intp, ts, fs);
        ts.push_back(std::numeric_limits<double>::max()); ts.push_back(-1);
        for (double x : ts) { double f = m.traps[0].fill_fraction_after_slow_capture_table(x); CHECK(f >= 0 && f <= 1, "fill " + num(f) + " after slow capture at " + num(x)); } }
}
int main(int c, char** v) { set_verbosity(0); return common_main(c, v, {{"P14", P14}, {"P15", P15}, {"P16", P16}, {"P17", P17}}); }
