// Executable contract for the trap managers (P01-P07), run against the real code.
// usage: tm <property> <seed> <budget_s> <out>      search; on failure writes <out>, exit 1
//        tm <property> --replay <file>              re-run one recorded history; exit 1 if it fails
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <valarray>
#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"

struct Op { char k; double x; };   // e exchange, s store, r restore, z reset, p prune
struct Case {
    int type; int N; double full, notch, power, first, dwell;
    std::vector<std::vector<double> > traps;  // density, release, p3, p4
    std::vector<Op> ops;
};
static std::string prop, why;
static bool want(const char* p) { return prop == p || prop == "ALL"; }
static bool fail(const char* p, const std::string& m) { if (!want(p)) return false; why = std::string(p) + ": " + m; return true; }
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }

static std::string dump(const Case& c) {
    std::ostringstream o; o.precision(17);
    o << c.type << " " << c.N << " " << c.full << " " << c.notch << " " << c.power << " " << c.first << " " << c.dwell << "\n" << c.traps.size() << "\n";
    for (auto& t : c.traps) { for (double d : t) o << d << " "; o << "\n"; }
    o << c.ops.size() << "\n";
    for (auto& q : c.ops) o << q.k << " " << q.x << "\n";
    return o.str();
}
static Case load(std::istream& i) {
    Case c; size_t n; i >> c.type >> c.N >> c.full >> c.notch >> c.power >> c.first >> c.dwell >> n;
    for (size_t k = 0; k < n; k++) { std::vector<double> t(4); for (auto& d : t) i >> d; c.traps.push_back(t); }
    i >> n; for (size_t k = 0; k < n; k++) { Op q; i >> q.k >> q.x; c.ops.push_back(q); }
    return c;
}

template <class M> struct Mk;
template <> struct Mk<TrapManagerInstantCapture> { typedef TrapInstantCapture T; static const int npt = 1; static T mk(const std::vector<double>& t) { return T(t[0], t[1], t[2], t[3]); } };
template <> struct Mk<TrapManagerSlowCapture> { typedef TrapSlowCapture T; static const int npt = 2; static T mk(const std::vector<double>& t) { return T(t[0], t[1], t[2]); } };
template <> struct Mk<TrapManagerInstantCaptureContinuum> { typedef TrapInstantCaptureContinuum T; static const int npt = 1; static T mk(const std::vector<double>& t) { return T(t[0], t[1], t[2]); } };
template <> struct Mk<TrapManagerSlowCaptureContinuum> { typedef TrapSlowCaptureContinuum T; static const int npt = 2; static T mk(const std::vector<double>& t) { return T(t[0], t[1], t[2], t[3]); } };

struct View { std::vector<double> vol; std::vector<std::vector<double> > fill; };
template <class M> View view(M& m) {
    View v;
    for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks && i < m.n_watermarks; i++) {
        v.vol.push_back(m.watermark_volumes[i]);
        std::vector<double> f; for (int t = 0; t < m.n_traps; t++) f.push_back(m.watermark_fills[i * m.n_traps + t]);
        v.fill.push_back(f);
    }
    return v;
}
// exposure-weighted number of trapped electrons (spec function, written from the property, not from the code)
static double G(double none, double full, double v) {
    if (full == 0) return v;
    if (v <= none) return 0;
    if (none == full) return v - full;
    double h = std::min(v, full); double g = (h - none) * (h - none) / (2 * (full - none));
    if (v > full) g += v - full;
    return g;
}
template <class M> double trapped(M& m, const View& v, const Case& c) {
    double tot = 0, bot = 0;
    for (size_t i = 0; i < v.vol.size(); i++) {
        double top = bot + v.vol[i];
        for (int t = 0; t < m.n_traps; t++) {
            double e = c.type == 0 ? G(c.traps[t][2], c.traps[t][3], top) - G(c.traps[t][2], c.traps[t][3], bot) : top - bot;
            tot += e * v.fill[i][t];
        }
        bot = top;
    }
    return tot;
}
template <class M> bool run(const Case& c) {
    std::valarray<typename Mk<M>::T> tr(Mk<M>::mk(c.traps[0]), c.traps.size());
    for (size_t i = 0; i < c.traps.size(); i++) tr[i] = Mk<M>::mk(c.traps[i]);
    CCDPhase ph(c.full, c.notch, c.power, c.first);
    M m(tr, c.N, ph, c.dwell);
    m.setup();
    double dtot = 0; for (int t = 0; t < m.n_traps; t++) dtot += m.trap_densities[t];
    View stored = view(m), cur = stored;
    bool uniform = true; for (auto& t : c.traps) if (c.type == 0 && t[3] > 0) uniform = false;
    if (m.n_watermarks < c.N * Mk<M>::npt + 1 || (int)m.watermark_volumes.size() != m.n_watermarks || (int)m.watermark_fills.size() != m.n_watermarks * m.n_traps)
        if (fail("P06", "storage " + std::to_string(m.n_watermarks) + " levels for " + std::to_string(c.N) + " exchanges")) return false;
    for (size_t k = 0; k < c.ops.size(); k++) {
        const Op& q = c.ops[k]; std::string at = " at operation " + std::to_string(k) + " (" + q.k + " " + num(q.x) + ")";
        View pre = view(m); double e0 = trapped(m, pre, c); int end0 = m.i_first_active_wmk + m.n_active_watermarks;
        double tol = 1e-9 * (1 + dtot + std::fabs(q.x));
        if (q.k == 'e') {
            double r = m.n_electrons_released_and_captured(q.x);
            View post = view(m); double e1 = trapped(m, post, c);
            int end1 = m.i_first_active_wmk + m.n_active_watermarks;
            if (!(std::fabs(r - (e0 - e1)) <= tol))
                if (fail(c.type % 2 == 0 ? "P01" : "P02", "returned " + num(r) + " but trapped electrons went " + num(e0) + " -> " + num(e1) + at)) return false;
            if (q.x >= 0 && !(q.x + r >= -tol)) if (fail("P04", "pixel left with " + num(q.x + r) + at)) return false;
            if (q.x <= 0 && c.first == 0 && !(r >= -tol)) if (fail("P04", "empty pixel lost charge " + num(r) + at)) return false;
            if (end1 > end0 + Mk<M>::npt || end1 > m.n_watermarks) if (fail("P06", "levels " + std::to_string(end0) + " -> " + std::to_string(end1) + " of " + std::to_string(m.n_watermarks) + at)) return false;
        } else if (q.k == 's') { m.store_trap_states(); stored = pre; View post = view(m);
            if (post.vol != pre.vol || post.fill != pre.fill) if (fail("P07", "saving changed the state" + at)) return false;
        } else if (q.k == 'r') { m.restore_trap_states(); View post = view(m);
            if (post.vol != stored.vol || post.fill != stored.fill) if (fail("P07", "restored state differs from saved state" + at)) return false;
        } else if (q.k == 'z') { m.reset_trap_states(); View post = view(m);
            if (post.vol.size() != 0) if (fail("P07", "reset left levels" + at)) return false;
        } else if (q.k == 'p') {
            m.prune_watermarks(q.x); View post = view(m); double e1 = trapped(m, post, c);
            double scale = 1e-9 * (1 + e0);
            if (!(std::fabs(e1 - e0) <= scale)) if (fail("P03", "trapped electrons " + num(e0) + " -> " + num(e1) + at)) return false;
            if (post.vol.size() > pre.vol.size()) if (fail("P03", "levels appeared" + at)) return false;
            // the boundaries that remain are boundaries that were there, except the top one and shifts by discarded charge
            double tp = 0, tq = 0; for (double x : pre.vol) tp += x; for (double x : post.vol) tq += x;
            if (!(tq <= tp + 1e-9)) if (fail("P03", "volume grew " + num(tp) + " -> " + num(tq) + at)) return false;
        }
        cur = view(m);
        if (m.i_first_active_wmk < 0 || m.n_active_watermarks < 0 || m.i_first_active_wmk + m.n_active_watermarks > m.n_watermarks)
            if (fail("P06", "active range " + std::to_string(m.i_first_active_wmk) + "+" + std::to_string(m.n_active_watermarks) + " of " + std::to_string(m.n_watermarks) + at)) return false;
        double tot = 0;
        for (size_t i = 0; i < cur.vol.size(); i++) {
            tot += cur.vol[i];
            if (!(cur.vol[i] >= -1e-12)) if (fail("P05", "level " + std::to_string(i) + " has size " + num(cur.vol[i]) + at)) return false;
            for (int t = 0; t < m.n_traps; t++)
                if (!(cur.fill[i][t] >= -1e-9 * (1 + m.trap_densities[t]) && cur.fill[i][t] <= m.trap_densities[t] * (1 + 1e-9)))
                    if (fail("P05", "level " + std::to_string(i) + " species " + std::to_string(t) + " occupancy " + num(cur.fill[i][t]) + " of " + num(m.trap_densities[t]) + at)) return false;
        }
        if (!(tot <= 1 + 1e-9)) if (fail("P05", "levels cover " + num(tot) + " of the pixel" + at)) return false;
        (void)uniform;
    }
    // P07 end: a final restore must give back the last saved state; a fresh manager must replay identically after reset
    m.restore_trap_states(); cur = view(m);
    if (cur.vol != stored.vol || cur.fill != stored.fill) if (fail("P07", "final restore differs from saved state")) return false;
    m.reset_trap_states();
    M f(tr, c.N, ph, c.dwell); f.setup();
    int cnt = 0;
    for (auto& q : c.ops) if (q.k == 'e' && cnt < c.N) { cnt++;
        double a = m.n_electrons_released_and_captured(q.x), b = f.n_electrons_released_and_captured(q.x);
        if (!(a == b)) if (fail("P07", "after reset, exchange " + std::to_string(cnt) + " of " + num(q.x) + " gives " + num(a) + ", fresh traps give " + num(b))) return false;
    }
    // restoring must reproduce behaviour exactly
    m.reset_trap_states(); f.reset_trap_states(); cnt = 0; size_t half = c.ops.size() / 2; std::vector<double> xs;
    for (auto& q : c.ops) if (q.k == 'e') xs.push_back(q.x);
    if ((int)xs.size() > c.N) xs.resize(c.N);
    half = xs.size() / 2; std::vector<double> out;
    for (size_t i = 0; i < half; i++) m.n_electrons_released_and_captured(xs[i]);
    m.store_trap_states();
    for (size_t i = half; i < xs.size(); i++) out.push_back(m.n_electrons_released_and_captured(xs[i]));
    m.restore_trap_states();
    for (size_t i = half; i < xs.size(); i++) { double a = m.n_electrons_released_and_captured(xs[i]);
        if (!(a == out[i - half])) if (fail("P07", "after restore, exchange of " + num(xs[i]) + " gives " + num(a) + " instead of " + num(out[i - half]))) return false; }
    return true;
}
static bool run1(const Case& c) {
    switch (c.type) {
        case 0: return run<TrapManagerInstantCapture>(c);
        case 1: return run<TrapManagerSlowCapture>(c);
        case 2: return run<TrapManagerInstantCaptureContinuum>(c);
        default: return run<TrapManagerSlowCaptureContinuum>(c);
    }
}

typedef std::mt19937_64 R;
static double U(R& r) { return std::uniform_real_distribution<double>(0, 1)(r); }
static int I(R& r, int a, int b) { return std::uniform_int_distribution<int>(a, b)(r); }
static double LU(R& r, double a, double b) { return std::exp(std::log(a) + U(r) * std::log(b / a)); }
static Case gen(R& r, int types_mask) {
    Case c; do c.type = I(r, 0, 3); while (!(types_mask >> c.type & 1));
    bool co = c.type >= 2;
    c.N = I(r, 2, co ? 6 : 12);
    c.full = LU(r, 100, 1e5); c.notch = I(r, 0, 2) ? 0 : c.full * U(r) * 0.3; c.power = I(r, 0, 2) ? LU(r, 0.3, 1) : 1;
    c.first = I(r, 0, 7) == 0 ? U(r) * 0.1 : 0; c.dwell = I(r, 0, 2) ? 1 : LU(r, 0.1, 3);
    int n = I(r, 1, co ? 1 : 3); bool nonuni = c.type == 0 && I(r, 0, 3) == 0; bool scarce = I(r, 0, 2) == 0;
    for (int i = 0; i < n; i++) {
        double d = scarce ? LU(r, c.full / 10, c.full * 10) : LU(r, 1, 100), rel = LU(r, 0.3, 50), p3 = 0, p4 = 0;
        if (I(r, 0, 9) == 0 && !co) rel = 1e30;
        if (c.type == 0 && nonuni) { p3 = U(r); p4 = I(r, 0, 4) ? p3 + (1 - p3) * U(r) : p3; }
        if (c.type == 1) p3 = I(r, 0, 5) ? LU(r, 0.01, 3) : 0;
        if (co) p3 = LU(r, 0.05, 1);
        if (c.type == 3) p4 = LU(r, 0.01, 1);
        c.traps.push_back({d, rel, p3, p4});
    }
    int used = 0, sused = 0, L = I(r, 2, 3 * c.N); double last = 0;
    for (int k = 0; k < L; k++) {
        int w = I(r, 0, 11); Op q = {'e', 0};
        if (w == 0) { q.k = 's'; sused = used; }
        else if (w == 1) { q.k = 'r'; used = sused; }
        else if (w == 2 && I(r, 0, 2) == 0) { q.k = 'z'; used = 0; }
        else if (w == 3) { q.k = 'p'; q.x = LU(r, 1e-3, 30) * (I(r, 0, 2) ? 1 : -1); }
        else {
            if (used >= c.N) { if (I(r, 0, 1)) { q.k = 'z'; used = 0; } else { q.k = 'r'; used = sused; } }
            else {
                used++;
                switch (I(r, 0, 8)) {
                    case 0: q.x = 0; break;
                    case 1: q.x = LU(r, 1e-3, 1); break;
                    case 2: q.x = last; break;
                    case 3: q.x = c.full * (1 + U(r)); break;
                    case 4: q.x = c.notch * U(r); break;
                    case 5: q.x = -LU(r, 0.1, 100); break;
                    default: q.x = LU(r, 0.5, c.full);
                }
                last = q.x;
            }
        }
        c.ops.push_back(q);
    }
    return c;
}
#include "watch.hpp"
int main(int argc, char** argv) {
    verbosity = 0; prop = argv[1];
    if (!strcmp(argv[2], "--replay")) { std::ifstream f(argv[3]); std::string l; while (f.peek() == '#') std::getline(f, l);
        Case c = load(f); if (run1(c)) { puts("held"); return 0; } printf("FAILED %s\n", why.c_str()); return 1; }
    unsigned long seed = strtoul(argv[2], 0, 10); double budget = atof(argv[3]);
    int mask = prop == "P01" ? 5 : prop == "P02" ? 10 : 15;
    R r(seed * 1000003 + 17); auto t0 = std::chrono::steady_clock::now(); long n = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget) {
        Case c = gen(r, mask); n++;
        watch_case(argv[4], prop, dump(c));
        if (!run1(c)) {
            // shrink: drop operations one by one while it still fails
            for (bool more = true; more;) { more = false;
                for (size_t k = c.ops.size(); k-- > 0;) { Case d = c; d.ops.erase(d.ops.begin() + k);
                    if (d.ops.size() && !run1(d)) { c = d; more = true; } } }
            run1(c);
            watch_fail(argv[4], why, dump(c)); printf("FAILED %s\ncases %ld\n", why.c_str(), n); return 1;
        }
    }
    watch_clear(argv[4]);
    printf("held cases %ld\n", n); return 0;
}
