// Executable contracts for whole-image clocking (P06, P08, P18, P19, P23, P25, P27).
#include "common.hpp"
#include <fcntl.h>
#include <memory>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"
typedef std::valarray<std::valarray<double> > Im;
typedef std::valarray<double> V;
static std::string S(int x) { return std::to_string(x); }
// Everything one direction needs.
struct Dir {
    int kind, phases, express, offset; V dwell; std::unique_ptr<ROE> roe; std::unique_ptr<CCD> ccd;
    std::valarray<TrapInstantCapture> ic; std::valarray<TrapSlowCapture> sc; std::valarray<TrapInstantCaptureContinuum> ico; std::valarray<TrapSlowCaptureContinuum> sco;
    std::vector<std::vector<double> > params[4]; bool null[4]; double prune; int freq; bool keep;
    std::valarray<TrapInstantCapture>* pic() { return null[0] ? nullptr : &ic; } std::valarray<TrapSlowCapture>* psc() { return null[1] ? nullptr : &sc; }
    std::valarray<TrapInstantCaptureContinuum>* pico() { return null[2] ? nullptr : &ico; } std::valarray<TrapSlowCaptureContinuum>* psco() { return null[3] ? nullptr : &sco; }
    bool any() { return !(null[0] && null[1] && null[2] && null[3]); }
};
template <class T, class F> void fill(std::valarray<T>& a, T d, int n, F f) { a.resize(n, d); for (int k = 0; k < n; k++) a[k] = f(k); }
// kind: 0 standard, 1 charge injection, 2 trap pumping
static int most_continuum = 1;
static std::unique_ptr<Dir> dir(Draw& d, int rows, int kind, bool traps_needed, bool allow_keep, int continuum_odds) {
    std::unique_ptr<Dir> q(new Dir); q->kind = kind; q->phases = d.one_in(3) ? d.i(2, 4) : 1; double dw = d.lu(0.3, 3);
    q->dwell.resize(kind == 2 ? 2 * q->phases : q->phases); for (double& x : q->dwell) x = dw * d.u(0.5, 1.5);
    q->offset = kind != 2 && d.one_in(3) ? d.i(0, 4) : 0; q->express = d.one_in(3) ? 0 : d.i(1, rows + 2); bool keep = allow_keep && kind != 2 && d.one_in(4); q->keep = keep;
    int prescan = d.one_in(4) ? d.i(1, 3) : 0, over = d.one_in(4) ? d.i(1, rows + q->offset) : -1; bool first = d.b(), force = !d.one_in(3), integer = d.one_in(3); int pumps = d.i(1, 8);
    q->roe.reset(kind == 0 ? new ROE(q->dwell, prescan, over, !keep, first, force, integer) : kind == 1 ? (ROE*)new ROEChargeInjection(q->dwell, prescan, over, !keep, force, integer) : (ROE*)new ROETrapPumping(q->dwell, pumps, first, integer));
    double full = d.lu(100, 1e5); std::valarray<CCDPhase> ph(CCDPhase(1, 0, 1), q->phases); V fr(1.0 / q->phases, q->phases); double sum = 0;
    for (int p = 0; p < q->phases; p++) { double f = full * d.u(0.5, 1.5); ph[p] = CCDPhase(f, d.one_in(2) ? 0 : f * 0.3 * d.u(), d.one_in(2) ? 1 : d.lu(0.3, 1), d.one_in(6) ? 0.1 * d.u() : 0); fr[p] = d.u(0.1, 1); sum += fr[p]; }
    fr /= sum; q->ccd.reset(new CCD(ph, fr));
    bool scarce = d.one_in(3); int n[4];
    for (int t = 0; t < 4; t++) { n[t] = d.one_in(t < 2 ? 2 : continuum_odds) ? d.i(1, t < 2 ? 2 : most_continuum) : 0; q->null[t] = n[t] == 0 && d.b(); }
    if (traps_needed && n[0] + n[1] + n[2] + n[3] == 0) n[0] = 1; for (int t = 0; t < 4; t++) if (n[t]) q->null[t] = false;
    for (int t = 0; t < 4; t++) for (int k = 0; k < n[t]; k++) { double den = scarce ? d.lu(full / 10, full * 2) : d.lu(1, 100), rel = d.lu(0.3, 50) * dw, a = 0, b = 0;
        if (t == 0 && d.one_in(4)) { a = d.u(0, 0.5); b = a + d.u(0.01, 0.4); } if (t == 1) a = d.one_in(4) ? 0 : d.lu(0.01, 3); if (t >= 2) a = d.u(0.1, 1); if (t == 3) b = d.lu(0.01, 1);
        q->params[t].push_back({den, rel, a, b}); }
    auto& p = q->params;
    fill(q->ic, TrapInstantCapture(0, 1), n[0], [&](int k) { return TrapInstantCapture(p[0][k][0], p[0][k][1], p[0][k][2], p[0][k][3]); });
    fill(q->sc, TrapSlowCapture(0, 1, 0), n[1], [&](int k) { return TrapSlowCapture(p[1][k][0], p[1][k][1], p[1][k][2]); });
    fill(q->ico, TrapInstantCaptureContinuum(0, 1, 1), n[2], [&](int k) { return TrapInstantCaptureContinuum(p[2][k][0], p[2][k][1], p[2][k][2]); });
    fill(q->sco, TrapSlowCaptureContinuum(0, 1, 1, 1), n[3], [&](int k) { return TrapSlowCaptureContinuum(p[3][k][0], p[3][k][1], p[3][k][2], p[3][k][3]); });
    q->freq = d.one_in(2) ? 20 : d.i(0, 3); q->prune = d.one_in(2) ? 1e-10 : d.lu(1e-4, 5);
    d.note("[roe " + S(kind) + " phases " + S(q->phases) + " express " + S(q->express) + " offset " + S(q->offset) + " prescan " + S(prescan) + " over " + S(over) + " first " + S(first) + " force " + S(force) + " integer " + S(integer) +
           " keep " + S(keep) + " pumps " + S(pumps) + " traps " + S(n[0]) + S(n[1]) + S(n[2]) + S(n[3]) + " prune " + num(q->prune) + "/" + S(q->freq) + "]");
    return q;
}
static Im image(Draw& d, int rows, int cols) {
    Im m(V(0.0, cols), rows); double full = d.lu(50, 5e4); int style = d.i(0, 3);
    for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) m[r][c] = style == 0 ? (d.one_in(3) ? full * d.u() : 0) : style == 1 ? full * d.u() : style == 2 ? full * (d.u() - 0.1) : (r == rows / 2 ? full : 0);
    d.note("image " + S(rows) + "x" + S(cols)); return m;
}
static double dist(const Im& a, const Im& b) { if (a.size() != b.size()) return 1e300; double m = 0; for (size_t r = 0; r < a.size(); r++) { if (a[r].size() != b[r].size()) return 1e300; for (size_t c = 0; c < a[r].size(); c++) { double e = std::fabs(a[r][c] - b[r][c]); if (!(e <= m)) m = e == e ? e : 1e300; } } return m; }
static double scale(const Im& a) { double m = 1; for (size_t r = 0; r < a.size(); r++) for (double x : a[r]) m = std::max(m, std::fabs(x)); return m; }
struct Win { int r0, r1, c0, c1; };
static Win window(Draw& d, int rows, int cols, bool one_row) {
    Win w = {0, -1, 0, -1}; if (one_row || d.one_in(2)) { w.r0 = d.i(0, rows - 1); w.r1 = one_row ? w.r0 + 1 : d.i(w.r0 + 1, rows); } if (d.one_in(2)) { w.c0 = d.i(0, cols - 1); w.c1 = d.i(w.c0 + 1, cols); }
    d.note("window " + S(w.r0) + ":" + S(w.r1) + "," + S(w.c0) + ":" + S(w.c1)); return w;
}
static Im clock1(Im& m, Dir& q, const Win& w, int neg = 1, int print_inputs = -1) {
    return clock_charge_in_one_direction(m, q.roe.get(), q.ccd.get(), q.pic(), q.psc(), q.pico(), q.psco(), q.express, q.offset, w.r0, w.r1, w.c0, w.c1, 0, -1, q.prune, q.freq, neg, print_inputs);
}
struct Quiet { int save; Quiet() { fflush(stdout); save = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); dup2(save, 1); close(save); } };
struct One { Im m; std::unique_ptr<Dir> q; Win w; int kind; };
static One one(Draw& d, int maxrows = 7, int maxcols = 4, int co = 25, bool keep_ok = true) {
    One o; int rows = d.i(1, maxrows), cols = d.i(1, maxcols); o.kind = d.one_in(2) ? 0 : d.i(0, 2); o.m = image(d, rows, cols); o.q = dir(d, rows, o.kind, false, keep_ok, co); o.w = window(d, rows, cols, o.kind == 2); return o;
}
// The clocking contract, transfer by transfer, over the library's own trap managers.
struct Ref { Im m; bool clipped; };
static Ref reference(const Im& in, Dir& q, const Win& w0, int neg) {
    Ref R; Im m = in; R.clipped = false; int rows = m.size(), cols = m[0].size(); Win w = w0; if (w.r1 == -1) w.r1 = rows; if (w.c1 == -1) w.c1 = cols;
    ROE* e = q.roe.get(); e->set_clock_sequence(); e->set_express_matrix_from_rows_and_express(rows, q.express, q.offset); e->set_store_trap_states_matrix();
    int N = (w.r1 - w.r0 + q.offset + e->prescan_offset) * (q.kind == 2 ? e->n_express_passes : 1) * (q.keep ? cols : 1);
    TrapManagerManager t(q.ic, q.sc, q.ico, q.sco, N, *q.ccd, q.dwell);
    for (int c = w.c0; c < w.c1; c++) {
        for (int p = 0; p < e->n_express_passes; p++) { t.restore_trap_states();
            for (int r = w.r0; r < w.r1; r++) { double x = e->express_matrix[p * rows + r]; if (x == 0) continue;
                for (int s = 0; s < e->n_steps; s++) for (int f = 0; f < e->n_phases; f++) { ROEStepPhase& a = e->clock_sequence[s][f]; double n = 0, got = 0;
                    for (size_t k = 0; k < a.capture_from_which_pixels.size(); k++) { int y = r + a.capture_from_which_pixels[k]; if (y >= 0 && y < rows) n += m[y][c]; }
                    if (q.ic.size()) got += t.trap_managers_ic[f].n_electrons_released_and_captured(n + got);
                    if (q.sc.size()) got += t.trap_managers_sc[f].n_electrons_released_and_captured(n + got);
                    if (q.ico.size()) got += t.trap_managers_ic_co[f].n_electrons_released_and_captured(n + got);
                    if (q.sco.size()) got += t.trap_managers_sc_co[f].n_electrons_released_and_captured(n + got);
                    for (size_t k = 0; k < a.release_to_which_pixels.size(); k++) { int y = r + a.release_to_which_pixels[k]; if (y < 0 || y >= rows) continue;
                        m[y][c] += got * x * a.release_fraction_to_pixels[k]; if (!neg && m[y][c] < 0) { m[y][c] = 0; R.clipped = true; } } }
                if (q.freq > 0 && (r - w.r0 + 1) % q.freq == 0) t.prune_watermarks(q.prune);
                if (e->store_trap_states_matrix[p * rows + r]) t.store_trap_states(); } }
        if (!q.keep) t.reset_trap_states(); t.store_trap_states(); }
    R.m = m; return R;
}
static void P23(Draw& d) {
    One o = one(d); int neg = d.one_in(3) ? 0 : 1; d.note("negative " + S(neg)); d.go(); Im in = o.m;
    Im out = clock1(o.m, *o.q, o.w, neg); CHECK(dist(in, o.m) == 0, "the input image changed");
    int rows = in.size(), cols = in[0].size(), c1 = o.w.c1 == -1 ? cols : o.w.c1; CHECK(out.size() == in.size() && out[0].size() == in[0].size(), "shape changed");
    for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) { if (c < o.w.c0 || c >= c1) CHECK(out[r][c] == in[r][c], "pixel " + S(r) + "," + S(c) + " outside the columns went " + num(in[r][c]) + " -> " + num(out[r][c]));
        if (!neg) CHECK(out[r][c] >= std::min(0.0, in[r][c]), "pixel " + S(r) + "," + S(c) + " went negative " + num(in[r][c]) + " -> " + num(out[r][c])); }
    Ref ref = reference(in, *o.q, o.w, neg); double e = dist(out, ref.m); CHECK(e <= 1e-8 * scale(in), "image differs by " + num(e) + " from the transfers' exchanges");
}
static void P06(Draw& d) { // out-of-bounds access is the sanitizers' to see
    int rows = d.i(1, 6), cols = d.i(1, 5), kind = d.i(0, 2); Im m = image(d, rows, cols); auto q = dir(d, rows, kind, true, true, 40); Win w = window(d, rows, cols, kind == 2); d.go();
    Im out = clock1(m, *q, w); CHECK(out.size() == m.size(), "shape");
}
static void P08(Draw& d) {
    One o = one(d, 6, 6, 40); int pick = d.i(0, (int)o.m[0].size() - 1), other = d.i(0, (int)o.m[0].size() - 1), T = d.i(2, 6); double rnd = d.lu(1, 1e4); d.go(); int rows = o.m.size(), cols = o.m[0].size();
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    Im a = clock1(o.m, *o.q, o.w);
#ifdef _OPENMP
    omp_set_num_threads(T);
#endif
    Im b = clock1(o.m, *o.q, o.w), b2 = clock1(o.m, *o.q, o.w); CHECK(dist(a, b) == 0 && dist(a, b2) == 0, "result with " + S(T) + " threads differs by " + num(std::max(dist(a, b), dist(a, b2))));
    if (o.q->keep) { // each column starts with the traps as the last pass of the column before left them
        Ref ref = reference(o.m, *o.q, o.w, 1); double e = dist(a, ref.m); CHECK(e <= 1e-8 * scale(o.m), "kept traps: image differs by " + num(e) + " from columns in order, each starting with the traps the previous one left");
        Im t = o.m; for (int r = 0; r < rows; r++) for (int c = pick + 1; c < cols; c++) t[r][c] = rnd * (r + c + 1); Im ta = clock1(t, *o.q, o.w);
        for (int r = 0; r < rows; r++) for (int c = 0; c <= pick; c++) CHECK(ta[r][c] == a[r][c], "kept traps: column " + S(c) + " changes with later columns"); return; }
    Win all = o.w; int c1 = o.w.c1 == -1 ? cols : o.w.c1; if (pick < o.w.c0 || pick >= c1) return;
    // the column alone; with another column replaced; with columns in reverse order
    Im s(V(0.0, 1), rows); for (int r = 0; r < rows; r++) s[r][0] = o.m[r][pick]; all.c0 = 0; all.c1 = -1; Im sa = clock1(s, *o.q, all);
    Im t = o.m; if (other != pick) for (int r = 0; r < rows; r++) t[r][other] = rnd * (r + 1); Im ta = clock1(t, *o.q, o.w);
    Im u(V(0.0, cols), rows); for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) u[r][cols - 1 - c] = o.m[r][c]; Im ua = clock1(u, *o.q, all);
    for (int r = 0; r < rows; r++) { CHECK(sa[r][0] == a[r][pick], "column " + S(pick) + " alone gives " + num(sa[r][0]) + " not " + num(a[r][pick]));
        CHECK(ta[r][pick] == a[r][pick], "column " + S(pick) + " changes with column " + S(other)); CHECK(ua[r][cols - 1 - pick] == a[r][pick], "column " + S(pick) + " changes with the order of columns"); }
}
static Im T(const Im& a) { Im b(V(0.0, a.size()), a[0].size()); for (size_t r = 0; r < a.size(); r++) for (size_t c = 0; c < a[0].size(); c++) b[c][r] = a[r][c]; return b; }
struct Two { Im m; std::unique_ptr<Dir> p, s; Win w; int neg; };
static Two two(Draw& d, int maxrows, int maxcols) {
    Two t; int rows = d.i(1, maxrows), cols = d.i(1, maxcols), kp = d.one_in(4) ? 1 : 0, ks = d.one_in(5) ? 1 : 0; t.m = image(d, rows, cols); t.p = dir(d, rows, kp, false, true, 40); t.s = dir(d, cols, ks, false, true, 40); t.w = window(d, rows, cols, false);
    if (d.one_in(5)) for (bool& n : t.p->null) n = true; if (d.one_in(5)) for (bool& n : t.s->null) n = true; t.neg = d.one_in(3) ? 0 : 1; d.note("null " + S(!t.p->any()) + S(!t.s->any()) + " negative " + S(t.neg)); return t;
}
static Im add(Im& m, Two& t, int v = 0, int it = 0) { Dir &p = *t.p, &s = *t.s;
    return add_cti(m, p.any() ? p.roe.get() : nullptr, p.any() ? p.ccd.get() : nullptr, p.pic(), p.psc(), p.pico(), p.psco(), p.express, p.offset, t.w.r0, t.w.r1, 0, -1, p.prune, p.freq,
                   s.any() ? s.roe.get() : nullptr, s.any() ? s.ccd.get() : nullptr, s.pic(), s.psc(), s.pico(), s.psco(), s.express, s.offset, t.w.c0, t.w.c1, 0, -1, s.prune, s.freq, t.neg, v, it); }
static Im compose(Im in, Two& t) { Im m = in;
    if (t.p->any()) m = clock1(m, *t.p, t.w, t.neg, 0);
    if (t.s->any()) { Win x = {t.w.c0, t.w.c1, t.w.r0, t.w.r1}; Im y = T(m); y = clock1(y, *t.s, x, t.neg, 0); m = T(y); }
    return m; }
static void P18(Draw& d) {
    Two t = two(d, 5, 5); int it = d.i(0, 3); d.go(); Im in = t.m; Im out = add(t.m, t, 0, it); CHECK(dist(in, t.m) == 0, "the input image changed");
    Im ref = compose(in, t); CHECK(dist(out, ref) == 0, "differs by " + num(dist(out, ref)) + " from parallel then serial clocking");
    if (!t.p->any() && !t.s->any()) CHECK(dist(out, in) == 0, "no traps but the image changed");
}
static void P19(Draw& d) {
    Two t = two(d, 4, 4); int n = d.i(0, 4); d.note("iterations " + S(n)); d.go(); Im in = t.m; Dir &p = *t.p, &s = *t.s;
    Im out = remove_cti(t.m, n, p.any() ? p.roe.get() : nullptr, p.any() ? p.ccd.get() : nullptr, p.pic(), p.psc(), p.pico(), p.psco(), p.express, p.offset, t.w.r0, t.w.r1, 0, -1, p.prune, p.freq,
                   s.any() ? s.roe.get() : nullptr, s.any() ? s.ccd.get() : nullptr, s.pic(), s.psc(), s.pico(), s.psco(), s.express, s.offset, t.w.c0, t.w.c1, 0, -1, s.prune, s.freq, t.neg);
    CHECK(dist(in, t.m) == 0, "the input image changed"); Im est = in;
    for (int k = 0; k < n; k++) { Im a = add(est, t, 0, k + 1); for (size_t r = 0; r < est.size(); r++) for (size_t c = 0; c < est[0].size(); c++) { est[r][c] += in[r][c] - a[r][c]; if (!t.neg && est[r][c] < 0) est[r][c] = 0; } }
    CHECK(dist(out, est) <= 1e-9 * scale(est), "differs by " + num(dist(out, est)) + " from " + S(n) + " iterations");
}
static void P25(Draw& d) {
    Two t = two(d, 4, 4); int n = d.one_in(4) ? 1 : 0; bool pump = d.one_in(5); std::unique_ptr<Dir> q; Win w; if (pump) { q = dir(d, t.m.size(), 2, true, false, 1000); w = window(d, t.m.size(), t.m[0].size(), true); } d.go();
    Im out[4]; for (int v = 0; v <= 3; v++) { Quiet z; set_verbosity(v); Im m = t.m; Dir &p = *t.p, &s = *t.s;
        if (pump) out[v] = clock1(m, *q, w, 1, v > 0); else if (!n) out[v] = add(m, t, v, 0);
        else out[v] = remove_cti(m, 2, p.any() ? p.roe.get() : nullptr, p.any() ? p.ccd.get() : nullptr, p.pic(), p.psc(), p.pico(), p.psco(), p.express, p.offset, t.w.r0, t.w.r1, 0, -1, p.prune, p.freq,
                   s.any() ? s.roe.get() : nullptr, s.any() ? s.ccd.get() : nullptr, s.pic(), s.psc(), s.pico(), s.psco(), s.express, s.offset, t.w.c0, t.w.c1, 0, -1, s.prune, s.freq, t.neg);
        set_verbosity(0); }
    for (int v = 1; v <= 3; v++) CHECK(dist(out[0], out[v]) == 0, "verbosity " + S(v) + " changes the image by " + num(dist(out[0], out[v])));
}
template <class M, class Q> void managers(const char* name, std::valarray<M>& ms, std::valarray<Q>& traps, Dir& q, int N, int per) {
    std::string at = std::string(" (") + name + ")"; if (traps.size() == 0) { CHECK(ms.size() == 0, "managers without traps" + at); return; }
    CHECK((int)ms.size() == q.phases, S(ms.size()) + " managers" + at); int want = N * (int)q.dwell.size();
    for (int p = 0; p < q.phases; p++) { M& m = ms[p]; std::string here = " in phase " + S(p) + at;
        CHECK(m.n_traps == (int)traps.size() && m.trap_densities.size() == traps.size() && m.traps.size() == traps.size(), "number of species" + here);
        CHECK(m.max_n_transfers >= want && m.n_watermarks >= want * per + 1 && (int)m.watermark_volumes.size() == m.n_watermarks && (int)m.watermark_fills.size() == m.n_watermarks * m.n_traps, "storage " + S(m.n_watermarks) + here);
        CHECK(m.dwell_time == q.dwell[p], "dwell time " + num(m.dwell_time) + here);
        CCDPhase &a = m.ccd_phase, &b = q.ccd->phases[p]; CHECK(a.full_well_depth == b.full_well_depth && a.well_notch_depth == b.well_notch_depth && a.well_fill_power == b.well_fill_power && a.first_electron_fill == b.first_electron_fill, "well" + here);
        for (int t = 0; t < m.n_traps; t++) { double x = traps[t].density * q.ccd->fraction_of_traps_per_phase[p]; CHECK(std::fabs(m.trap_densities[t] - x) <= 1e-12 * x, "species " + S(t) + " density " + num(m.trap_densities[t]) + " instead of " + num(x) + here);
            CHECK(m.traps[t].release_timescale == traps[t].release_timescale, "species" + here); }
        CHECK(m.n_active_watermarks == 0 && m.n_electrons_released_and_captured(-1) >= -1e-9, "not empty at the start" + here); }
}
static void P27(Draw& d) {
    int N = d.i(1, 8), x1 = d.i(0, 3); double n1 = d.lu(10, 1e4); auto q = dir(d, 5, d.one_in(4) ? 2 : 0, true, false, 12); d.note("transfers " + S(N)); d.go(); for (CCDPhase& p : q->ccd->phases) p.first_electron_fill = 0;
    TrapManagerManager t(q->ic, q->sc, q->ico, q->sco, N, *q->ccd, q->dwell), u(q->ic, q->sc, q->ico, q->sco, N, *q->ccd, q->dwell); CHECK(t.n_traps_ic == (int)q->ic.size() && t.n_traps_sc == (int)q->sc.size() && t.n_traps_ic_co == (int)q->ico.size() && t.n_traps_sc_co == (int)q->sco.size(), "numbers of species");
    managers("instant", t.trap_managers_ic, q->ic, *q, N, 1); managers("slow", t.trap_managers_sc, q->sc, *q, N, 2); managers("instant continuum", t.trap_managers_ic_co, q->ico, *q, N, 1); managers("slow continuum", t.trap_managers_sc_co, q->sco, *q, N, 2);
    t.reset_trap_states(); if (q->ic.size()) { int p = x1 % q->phases; t.trap_managers_ic[p].n_electrons_released_and_captured(n1); for (int k = 0; k < q->phases; k++) if (k != p) CHECK(t.trap_managers_ic[k].n_active_watermarks == 0, "phase " + S(k) + " shares phase " + S(p) + "'s traps"); }
}
// P07 for the whole collection: saving, restoring and resetting all populations together
static void P07(Draw& d) {
    auto q = dir(d, 5, d.one_in(4) ? 2 : 0, true, false, 12); int N = d.i(4, 8); std::vector<double> x; for (int k = 0; k < 3 * (N / 2); k++) x.push_back(d.one_in(4) ? 0 : d.lu(1, 5e4)); d.go();
    TrapManagerManager t(q->ic, q->sc, q->ico, q->sco, N, *q->ccd, q->dwell);
    auto run = [&](TrapManagerManager& m, int from, int n) { std::vector<double> out; for (int k = from; k < from + n; k++) for (int p = 0; p < q->phases; p++) {
        if (q->ic.size()) out.push_back(m.trap_managers_ic[p].n_electrons_released_and_captured(x[k] * (p + 1))); if (q->sc.size()) out.push_back(m.trap_managers_sc[p].n_electrons_released_and_captured(x[k] * (p + 1)));
        if (q->ico.size()) out.push_back(m.trap_managers_ic_co[p].n_electrons_released_and_captured(x[k] * (p + 1))); if (q->sco.size()) out.push_back(m.trap_managers_sc_co[p].n_electrons_released_and_captured(x[k] * (p + 1))); } return out; };
    int h = N / 2; auto fresh = run(t, 0, h); TrapManagerManager c = t; t.store_trap_states(); auto later = run(t, h, h); CHECK(run(c, h, h) == later, "a copy of the collection behaves differently");
    t.restore_trap_states(); CHECK(run(t, h, h) == later, "after restoring, the exchanges differ"); t.restore_trap_states(); t.restore_trap_states(); CHECK(run(t, h, h) == later, "after restoring twice, the exchanges differ");
    t.reset_trap_states(); CHECK(run(t, 0, h) == fresh, "after resetting, the exchanges differ from fresh traps"); t.restore_trap_states(); CHECK(run(t, h, h) == later, "resetting changed the saved state");
    t.reset_trap_states(); t.store_trap_states(); run(t, h, h); t.restore_trap_states(); CHECK(run(t, 0, h) == fresh, "saving empty traps and restoring them does not give empty traps");
    TrapManagerManager n(q->ic, q->sc, q->ico, q->sco, N, *q->ccd, q->dwell); run(n, h, h); n.restore_trap_states(); CHECK(run(n, 0, h) == fresh, "restoring without having saved does not give empty traps");
}
int main(int c, char** v) { set_verbosity(0); return common_main(c, v, {{"P06", P06}, {"P07", P07}, {"P08", P08}, {"P18", P18}, {"P19", P19}, {"P23", P23}, {"P25", P25}, {"P27", P27}}); }
