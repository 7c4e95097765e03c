// Executable contracts for the readout electronics (P09-P13, P26).
#include "common.hpp"
#include "roe.hpp"
#include "util.hpp"
typedef std::valarray<double> V;
static std::string S(int x) { return std::to_string(x); }
struct In { int rows, express, w, prescan, over; bool first, integer; };
static In draw(Draw& d, bool over_ok = true) {
    In n; n.rows = d.i(1, d.one_in(4) ? 60 : 12); n.w = d.one_in(3) ? d.i(1, 9) : 0; n.prescan = d.one_in(3) ? d.i(1, 9) : 0;
    int N = n.rows + n.w + n.prescan; n.express = d.i(0, 3) ? d.i(0, N + 2) : 0;
    n.over = over_ok && d.one_in(3) ? d.i(1, n.rows + n.w + 3) : -1; n.first = d.one_in(2); n.integer = d.one_in(2);
    d.note("n_rows=" + S(n.rows) + " express=" + S(n.express) + " window_offset=" + S(n.w) + " prescan=" + S(n.prescan) + " overscan_start=" + S(n.over) +
           " first=" + S(n.first) + " integer=" + S(n.integer));
    return n;
}
static void shape(ROE& r, int rows) {
    CHECK(r.n_express_passes >= 0 && (int)r.express_matrix.size() == r.n_express_passes * rows, "matrix has " + S(r.express_matrix.size()) + " entries for " + S(r.n_express_passes) + " passes");
    CHECK(r.store_trap_states_matrix.size() == r.express_matrix.size(), "store matrix has another size");
}
static void P09(Draw& d) {
    In n = draw(d); d.go(); V dw = {1.0};
    ROE r(dw, n.prescan, n.over, true, n.first, true, n.integer);
    r.set_express_matrix_from_rows_and_express(n.rows, n.express, n.w); r.set_store_trap_states_matrix(); shape(r, n.rows);
    int N = n.rows + n.w + n.prescan, E = n.express == 0 ? N : std::min(n.express, N);
    double mx = (double)N / E; if (n.integer) mx = std::ceil(mx - 1e-9); if (n.first) mx += 1;
    for (int k = 0; k < n.rows; k++) {
        double want = k + 1 + n.w + n.prescan; if (n.over > 0) want -= std::max(0, k + n.w + 2 - n.over);
        double got = 0;
        for (int e = 0; e < r.n_express_passes; e++) { double x = r.express_matrix[e * n.rows + k]; got += x;
            CHECK(x >= 0 && x <= mx + 1e-9, "multiplier " + num(x) + " of row " + S(k) + " pass " + S(e) + " is outside [0," + num(mx) + "]"); }
        CHECK(std::fabs(got - want) < 1e-8 * (1 + N), "row " + S(k) + " multipliers sum to " + num(got) + " not " + num(want));
    }
}
static void P10(Draw& d) {
    In n = draw(d); d.go(); V dw = {1.0};
    ROEChargeInjection r(dw, n.prescan, n.over, true, true, n.integer);
    r.set_express_matrix_from_rows_and_express(n.rows, n.express, n.w); r.set_store_trap_states_matrix(); shape(r, n.rows);
    int N = n.over > 0 ? n.prescan + n.over - 1 : n.rows + n.w + n.prescan, E = n.express == 0 ? N : std::min(n.express, N);
    double mx = E ? std::ceil((double)N / E - 1e-9) : 0;
    for (int k = 0; k < n.rows; k++) { double got = 0;
        for (int e = 0; e < r.n_express_passes; e++) { double x = r.express_matrix[e * n.rows + k]; got += x;
            CHECK(x >= 0 && x <= mx + 1e-9, "multiplier " + num(x) + " of row " + S(k) + " pass " + S(e) + " is outside [0," + num(mx) + "]"); }
        CHECK(std::fabs(got - N) < 1e-8 * (1 + N), "row " + S(k) + " multipliers sum to " + num(got) + " not " + S(N)); }
    for (size_t k = 0; k < r.store_trap_states_matrix.size(); k++) CHECK(!r.store_trap_states_matrix[k], "trap state carried between passes");
}
static void P11(Draw& d) {
    int rows = d.i(1, 6), pumps = d.i(1, d.one_in(4) ? 60 : 12), express = d.i(0, 3) ? d.i(0, pumps + 2) : 0; bool first = d.b(), integer = d.b(); int ns = 2 * d.i(1, 4);
    d.note("n_rows=" + S(rows) + " n_pumps=" + S(pumps) + " express=" + S(express) + " first=" + S(first) + " integer=" + S(integer)); d.go();
    V dw(1.0, ns); ROETrapPumping r(dw, pumps, first, integer);
    r.set_express_matrix_from_rows_and_express(rows, express, 0); r.set_store_trap_states_matrix(); shape(r, rows);
    for (int k = 0; k < rows; k++) { double got = 0;
        for (int e = 0; e < r.n_express_passes; e++) { double x = r.express_matrix[e * rows + k]; got += x; CHECK(x >= 0, "negative multiplier " + num(x));
            CHECK(x == r.express_matrix[e * rows], "row " + S(k) + " differs from row 0 in pass " + S(e));
            CHECK(r.store_trap_states_matrix[e * rows + k] == (x != 0 && e != r.n_express_passes - 1), "store flag of pass " + S(e) + " row " + S(k)); }
        CHECK(std::fabs(got - pumps) < 1e-8 * (1 + pumps), "row " + S(k) + " multipliers sum to " + num(got)); }
}
static void P12(Draw& d) {
    In n = draw(d); bool copy = d.one_in(4); d.go(); V dw = {1.0};
    ROE r0(dw, n.prescan, n.over, true, n.first, true, n.integer); ROE* r = &r0; ROE r1; if (copy) { r1 = r0; r = &r1; }
    r->set_express_matrix_from_rows_and_express(n.rows, n.express, n.w); r->set_store_trap_states_matrix(); shape(*r, n.rows);
    for (int e = 0; e < r->n_express_passes; e++) {
        int at = -1;
        if (!n.first && e + 1 < r->n_express_passes) { at = n.rows - 1; for (int k = n.rows - 1; k >= 1; k--) if (r->express_matrix[(e + 1) * n.rows + k] > 0) at = k - 1; }
        for (int k = 0; k < n.rows; k++) CHECK(r->store_trap_states_matrix[e * n.rows + k] == (k == at), "pass " + S(e) + " row " + S(k) + " store flag " + S(r->store_trap_states_matrix[e * n.rows + k]) + ", expected row " + S(at));
    }
}
static void P13(Draw& d) {
    bool pump = d.one_in(3); int n = d.i(1, 12); bool force = d.b(); d.note((pump ? "pumping" : "standard") + std::string(" n=") + S(n) + " force=" + S(force)); d.go();
    V dw(1.0, pump ? 2 * n : n); ROE a(dw, 0, -1, true, false, force, false); V dw2(1.0, 2 * n); ROETrapPumping b(dw2, 3, true, false);
    ROE* r = pump ? (ROE*)&b : &a;
    if (!pump && dw.size() != (size_t)n) throw Fail("size");
    r->set_clock_sequence();
    CHECK((int)r->clock_sequence.size() == r->n_steps && r->n_steps == (int)dw.size(), "number of steps");
    CHECK(r->n_phases == n, "number of phases");
    for (int s = 0; s < r->n_steps; s++) { int high = 0; CHECK((int)r->clock_sequence[s].size() == n, "number of phases in step " + S(s));
        for (int p = 0; p < n; p++) { ROEStepPhase& q = r->clock_sequence[s][p]; std::string at = " in step " + S(s) + " phase " + S(p);
            high += q.is_high; CHECK(q.n_capture_pixels == (int)q.capture_from_which_pixels.size() && q.n_capture_pixels == (q.is_high ? 1 : 0), "captures from " + S(q.n_capture_pixels) + " pixels" + at);
            CHECK(q.n_release_pixels == (int)q.release_to_which_pixels.size() && q.n_release_pixels == (int)q.release_fraction_to_pixels.size() && q.n_release_pixels >= 1, "release lists differ in length" + at);
            double f = 0; for (int k = 0; k < q.n_release_pixels; k++) { f += q.release_fraction_to_pixels[k]; int to = q.release_to_which_pixels[k];
                CHECK(q.release_fraction_to_pixels[k] >= 0, "negative fraction" + at); CHECK(to >= -1 && to <= 1, "releases " + S(to) + " pixels away" + at);
                if (force && !pump) CHECK(to >= 0, "releases towards readout" + at); }
            for (int k = 0; k < q.n_capture_pixels; k++) CHECK(std::abs(q.capture_from_which_pixels[k]) <= 1, "captures from afar" + at);
            CHECK(f == 1, "fractions sum to " + num(f) + at); }
        CHECK(high == 1, S(high) + " phases high in step " + S(s)); }
}
static void P26(Draw& d) {
    int k1 = d.i(0, 2), k2 = d.i(0, 2), s1 = 2 * d.i(1, 3), s2 = 2 * d.i(1, 3), pumps = d.i(1, 9), pumps2 = d.i(1, 9), ps = d.i(-2, 3), os = d.i(-3, 4); bool f[5], g[4]; for (bool& x : f) x = d.b(); for (bool& x : g) x = d.b();
    bool def = d.one_in(3); double t = d.u(0.1, 2);
    d.note("source type " + S(k1) + " target type " + S(k2) + (def ? " (default target)" : "") + " steps " + S(s1) + "," + S(s2) + " pumps " + S(pumps) + " prescan " + S(ps) + " overscan " + S(os)); d.go();
    V a(t, s1), b(3.0, s2), b0 = b, a0 = a, sd = dwell_times_default, sp = dwell_times_trap_pumping_default;
    bool bad = k1 != 2 && (ps < 0 || (os != -1 && os <= 0)), threw = false; ROE* src = nullptr;
    try { src = k1 == 0 ? new ROE(a, ps, os, f[0], f[1], f[2], f[3]) : k1 == 1 ? (ROE*)new ROEChargeInjection(a, ps, os, f[0], f[2], f[3]) : (ROE*)new ROETrapPumping(a, pumps, f[1], f[3]); }
    catch (std::invalid_argument&) { threw = true; }
    CHECK(threw == bad, bad ? "invalid setting accepted" : "valid setting rejected");
    if (!src) return;
    ROE* dst = k2 == 0 ? (def ? new ROE() : new ROE(b, 1, 5, g[0], g[1], g[2], g[3])) : k2 == 1 ? (ROE*)(def ? new ROEChargeInjection() : new ROEChargeInjection(b, 2, 4, g[0], g[2], g[3])) : (ROE*)(def ? new ROETrapPumping() : new ROETrapPumping(b, pumps2, g[1], g[3]));
    *dst = *src;
    auto same = [&](const V& x, const V& y) { return x.size() == y.size() && (x.size() == 0 || (x == y).min()); };
    CHECK(same(dst->dwell_times, a0), "dwell times not copied");
    CHECK(dst->prescan_offset == src->prescan_offset && dst->overscan_start == src->overscan_start, "offsets not copied");
    CHECK(k1 == 2 || (dst->prescan_offset == ps && dst->overscan_start == os), "offsets");
    CHECK(dst->empty_traps_between_columns == src->empty_traps_between_columns && dst->empty_traps_for_first_transfers == src->empty_traps_for_first_transfers &&
          dst->force_release_away_from_readout == src->force_release_away_from_readout && dst->use_integer_express_matrix == src->use_integer_express_matrix, "options not copied");
    CHECK(src->use_integer_express_matrix == f[3] && src->empty_traps_for_first_transfers == (k1 == 1 ? false : f[1]) && src->force_release_away_from_readout == (k1 == 2 ? false : f[2]) &&
          src->empty_traps_between_columns == (k1 == 2 ? true : f[0]), "options not taken");
    CHECK(dst->type == src->type && (int)src->type == k1 && dst->n_steps == s1 && dst->n_phases == src->n_phases, "type, steps or phases not copied");
    if (k1 == 2) CHECK(dst->n_pumps == pumps, "number of pumps not copied");
    CHECK(same(a, a0), "the source's array changed"); CHECK(same(b, b0), "the array the target was built from changed");
    CHECK(same(dwell_times_default, sd) && same(dwell_times_trap_pumping_default, sp), "library defaults changed");
    // independence: changing the copy, or the array the source was built from, leaves the other alone
    dst->dwell_times[0] = 77; CHECK(same(src->dwell_times, a0), "the copy shares its dwell times with the source");
    CHECK(same(dwell_times_default, sd) && same(b, b0), "writing to the copy changed another array");
    delete dst; delete src;
}
int main(int c, char** v) { set_verbosity(0); return common_main(c, v, {{"P09", P09}, {"P10", P10}, {"P11", P11}, {"P12", P12}, {"P13", P13}, {"P26", P26}}); }
