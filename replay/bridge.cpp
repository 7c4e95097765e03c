// Executable contract for the flat-array interface the Python layer calls (P24): same image as the core library.
#define main cti_main
#include "cti.cpp"
#undef main
#include "interface.hpp"
struct Flat { V dwell, frac, full, notch, power, first, den, rel, third, fourth, prune; int n[4], pumps, type; ROE* e; Dir* q; };
static Flat flat(Dir& q) {
    Flat f; f.q = &q; f.e = q.roe.get(); f.type = q.kind; f.pumps = q.kind == 2 ? ((ROETrapPumping*)f.e)->n_pumps : -1; f.dwell = q.dwell; f.frac = q.ccd->fraction_of_traps_per_phase; int P = q.phases; f.full.resize(P); f.notch.resize(P); f.power.resize(P); f.first.resize(P);
    for (int p = 0; p < P; p++) { CCDPhase& c = q.ccd->phases[p]; f.full[p] = c.full_well_depth; f.notch[p] = c.well_notch_depth; f.power[p] = c.well_fill_power; f.first[p] = c.first_electron_fill; }
    int N = 0; for (int t = 0; t < 4; t++) N += f.n[t] = q.params[t].size(); f.den.resize(std::max(N, 1)); f.rel.resize(std::max(N, 1)); f.third.resize(std::max(N, 1)); f.fourth.resize(std::max(N, 1)); f.prune.resize(1, q.prune);
    int k = 0; for (int t = 0; t < 4; t++) for (auto& x : q.params[t]) { f.den[k] = x[0]; f.rel[k] = x[1]; f.third[k] = x[2]; f.fourth[k] = x[3]; k++; }
    return f;
}
#define ARGS(f, s0, s1) &f.dwell[0], (int)f.dwell.size(), f.e->prescan_offset, f.e->overscan_start, f.e->empty_traps_between_columns, f.e->empty_traps_for_first_transfers, f.e->force_release_away_from_readout, f.e->use_integer_express_matrix, f.pumps, f.type, \
    &f.frac[0], (int)f.frac.size(), &f.full[0], &f.notch[0], &f.power[0], &f.first[0], &f.den[0], &f.rel[0], &f.third[0], &f.fourth[0], f.n[0], f.n[1], f.n[2], f.n[3], f.q->express, f.q->offset, s0, s1, 0, -1, &f.prune[0], f.q->freq
static void P24(Draw& d) {
    bool rich = d.one_in(100); most_continuum = rich ? 3 : 1; int odds = rich ? 1 : 30, rows = d.i(1, rich ? 3 : 5), cols = d.i(1, rich ? 3 : 5), kp = d.one_in(3) ? d.i(0, 2) : 0, ks = d.one_in(3) ? d.i(0, 2) : 0; Im m = image(d, rows, cols); Two t; t.p = dir(d, rows, kp, false, true, odds); bool some = false; for (auto& x : t.p->params) some |= !x.empty(); t.s = dir(d, cols, ks, !some, true, odds);
    t.w = window(d, rows, cols, kp == 2); if (ks == 2) { t.w.c0 = d.i(0, cols - 1); t.w.c1 = t.w.c0 + 1; d.note("one column " + S(t.w.c0)); } t.neg = d.one_in(3) ? 0 : 1; int it = d.i(0, 2); t.m = m;
    int np = 0, ns = 0; for (int k = 0; k < 4; k++) { np += t.p->params[k].size(); ns += t.s->params[k].size(); } d.note("negative " + S(t.neg)); d.go();
    for (Dir* q : {t.p.get(), t.s.get()}) for (int k = 0; k < 4; k++) q->null[k] = (q == t.p.get() ? np : ns) == 0;
    Flat p = flat(*t.p), s = flat(*t.s); V buf(0.0, rows * cols); for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) buf[r * cols + c] = m[r][c];
    Im want = add(t.m, t, 0, it);
    add_cti(&buf[0], rows, cols, ARGS(p, t.w.r0, t.w.r1), ARGS(s, t.w.c0, t.w.c1), t.neg, 0, it);
    for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) CHECK(buf[r * cols + c] == want[r][c], "pixel " + S(r) + "," + S(c) + " " + num(buf[r * cols + c]) + " through the bridge, " + num(want[r][c]) + " from the core");
}
int main(int c, char** v) { set_verbosity(0); return common_main(c, v, {{"P24", P24}}); }
