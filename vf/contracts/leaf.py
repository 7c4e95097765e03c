"""Contracts of the leaf numerics: CCDPhase (P14), surface traps (P15), trap probabilities (P16)."""
from contracts.base import *


# ------------------------------------------------------------------ P14
def phase(ex, tag=""):
    """an arbitrary CCD phase with its documented preconditions"""
    f, w, p, e = Rv("full" + tag), Rv("notch" + tag), Rv("power" + tag), Rv("first" + tag)
    ex.env.assume(AND(gt(f, 0), lt(w, f), gt(p, 0), ge(e, 0), le(e, 1)))
    return Obj("CCDPhase", {"full_well_depth": f, "well_notch_depth": w, "well_fill_power": p, "first_electron_fill": e})


FN14 = "CCDPhase::cloud_fractional_volume_from_electrons"


def cloud(ex):
    axioms(ex)
    ph = phase(ex)
    this = put(ex, "phase", ph)
    run = lambda x: call(ex, "CCDPhase", "cloud_fractional_volume_from_electrons", this, [x])
    x, y = Rv("x"), Rv("y")
    if ex.choose(2):
        ex.env.assume(le(x, y))
        a, b = run(x), run(y)
        with at(ex, FN14):
            ex.oblige(le(a, b), "post", "more charge never fills less of the pixel")
            ex.oblige(TRUE if ex.same(ex.store[this.root], ph) else FALSE, "frame", "the phase is not changed")
        return
    v = run(x)
    with at(ex, FN14):
        ex.oblige(ge(v, 0), "post", "the fraction is not negative")
        ex.oblige(le(v, 1), "post", "the fraction is at most one")
        ex.oblige(IMP(le(x, 0), eq(v, ph.f["first_electron_fill"])), "post", "no charge fills the first-electron fraction")
        ex.oblige(IMP(ge(x, ph.f["full_well_depth"]), eq(v, 1)), "post", "full well fills the pixel")
        ex.oblige(ge(v, ph.f["first_electron_fill"]), "post", "any charge fills at least the first-electron fraction")


# the CFV contract the trap managers use is the one proved here, with no first-electron fill


# ------------------------------------------------------------------ P15
def trap_surface(ex):
    a, b = Rv("none"), Rv("full")
    ex.env.assume(AND(ge(a, 0), le(a, b), lt(a + b, 2)))
    return a, b


def H_spec(ex, a, b, v):
    """integral from 0 to v of the exposure density rising linearly from a to b (a step when a = b)"""
    if ex.branch(le(v, a)): return ZERO
    if ex.branch(ge(v, b)): return v - (a + b) * P(Fr(1, 2))
    return (v - a) * (v - a) * inverse_of(ex, b - a) * P(Fr(1, 2))


def Fr(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def inverse_of(ex, d):
    return ex.quot(ONE, d)


FN15 = "TrapInstantCapture::fraction_traps_exposed_per_fractional_volume"


def exposed(ex):
    axioms(ex)
    a, b = trap_surface(ex)
    lo, hi = Rv("low"), Rv("high")
    ex.env.assume(AND(ge(lo, 0), le(lo, hi), le(hi, 1)))
    this = put(ex, "trap", Obj("TrapInstantCapture", {
        "density": Rv("density"), "release_timescale": Rv("rts"), "release_rate": Rv("rr"),
        "fractional_volume_none_exposed": a, "fractional_volume_full_exposed": b}))
    o = ex.store[this.root]
    r = call(ex, "TrapInstantCapture", "fraction_traps_exposed_per_fractional_volume", this, [lo, hi])
    with at(ex, FN15):
        if ex.branch(lt(lo, hi)):
            ex.oblige(eq(r * (hi - lo), H_spec(ex, a, b, hi) - H_spec(ex, a, b, lo)), "post",
                      "exposed amount is the integral of the exposure density over the range")
        else:
            # a range of no height: the density itself
            if ex.branch(lt(a, b)):
                ex.oblige(IMP(le(lo, a), eq(r, 0)), "post", "a range of no height below the exposure has none")
                ex.oblige(IMP(ge(lo, b), eq(r, 1)), "post", "a range of no height above the exposure is exposed")
                ex.oblige(IMP(AND(ge(lo, a), le(lo, b)), eq(r * (b - a), lo - a)), "post", "a range of no height has the density there")
        ex.oblige(ge(r, 0), "post", "the exposed fraction is not negative")
        ex.oblige(le(r, 1), "post", "the exposed fraction is at most one")
        ex.oblige(TRUE if ex.same(ex.store[this.root], o) else FALSE, "frame", "the trap is not changed")


def density(ex):
    """the constructor scales the density so that the whole pixel holds the supplied number of traps"""
    axioms(ex)
    a, b = trap_surface(ex)
    dens, tau = Rv("dens"), Rv("tau")
    ex.env.assume(AND(gt(tau, 0), lt(b, 1), ge(dens, 0)))
    this = put(ex, "trap", ex.default_object("TrapInstantCapture"))
    call(ex, "TrapInstantCapture", "TrapInstantCapture", this, [dens, tau, a, b])
    o = ex.store[this.root]
    with at(ex, "TrapInstantCapture::TrapInstantCapture"):
        ex.oblige(eq(o.f["fractional_volume_none_exposed"], a), "post", "the lower exposure limit is kept")
        ex.oblige(eq(o.f["fractional_volume_full_exposed"], b), "post", "the upper exposure limit is kept")
        ex.oblige(eq(o.f["release_timescale"], tau), "post", "the release timescale is kept")
        tot = H_spec(ex, a, b, ONE) if ex.branch(gt(b, 0)) else ONE
        ex.oblige(eq(o.f["density"] * tot, dens), "post", "the density integrates to the supplied number of traps")


# ------------------------------------------------------------------ P16
def traps(ex, cls, T, release_rate=True):
    tau = lambda r: app("tau", [r])
    cts = lambda r: app("cts", [r])
    ex.env.ax["tau"] = lambda a: [gt(tau(a[0]), 0)]
    ex.env.ax["cts"] = lambda a: [ge(cts(a[0]), 0)]
    slow = "Slow" in cls
    def mk(r):
        f = {"density": app("dens", [r]), "release_timescale": tau(r), "release_rate": inverse(tau(r)),
             "fractional_volume_none_exposed": ZERO if slow else app("fnone", [r]),
             "fractional_volume_full_exposed": ZERO if slow else app("ffull", [r])}
        if slow:
            f["capture_timescale"] = cts(r)
            f["capture_rate"] = app("crate", [r])
        return Obj(cls, f)
    # capture rate: 1 / timescale, or 0 for instant capture (established by the constructor, see slow_ctor)
    cr = lambda r: app("crate", [r])
    ex.env.ax["crate"] = lambda a: [ge(cr(a[0]), 0), IMP(gt(cts(a[0]), 0), AND(gt(cr(a[0]), 0), eq(cr(a[0]) * cts(a[0]), 1))), IMP(eq(cts(a[0]), 0), eq(cr(a[0]), 0))]
    return fun_arr(mk, T)


def manager(ex, cls, T):
    o = ex.default_object(cls)
    f = dict(o.f)
    dwell, N = Rv("dwell"), I("max_n_transfers")
    ppt = I("per_transfer")
    ex.env.assume(AND(gt(dwell, 0), ge(T, 1), ge(N, 0), ge(ppt, 1)))
    f.update({"dwell_time": dwell, "n_traps": T, "traps": traps(ex, cls.replace("TrapManager", "Trap"), T), "max_n_transfers": N,
              "n_watermarks_per_transfer": ppt, "zeroth_watermark": ZERO, "empty_watermark": ZERO, "n_active_watermarks": ZERO,
              "i_first_active_wmk": ZERO})
    return put(ex, "manager", Obj(cls, f)), dwell


def instant_setup(cls):
    def go(ex):
        axioms(ex)
        T = I("n_traps")
        this, dwell = manager(ex, cls, T)
        call(ex, cls, "setup", this, [])
        o = ex.store[this.root]
        with at(ex, cls + "::setup"):
            p = o.f["empty_probabilities_from_release"]
            ex.oblige(eq(p.length, T), "post", "one release probability per species")
            i = element(ex, T)
            want = ONE - app("exp", [-dwell * inverse(app("tau", [i]))])
            ex.oblige(eq(ex.read(p, (i,)), want), "post", "a trap empties with probability one minus exp(-dwell / release time)")
            ex.oblige(AND(ge(want, 0), le(want, 1)), "post", "the release probability is between zero and one")
            if "Slow" in cls:
                pe, pf = o.f["fill_probabilities_from_empty"], o.f["fill_probabilities_from_full"]
                e, f = ex.read(pe, (i,)), ex.read(pf, (i,))
                c, r = app("crate", [i]), inverse(app("tau", [i]))
                X = app("exp", [-(c + r) * dwell])
                inst = eq(app("cts", [i]), 0)
                ex.oblige(IMP(inst, eq(e, 1)), "post", "instant capture fills an empty trap with certainty")
                ex.oblige(IMP(inst, eq(f, 1)), "post", "instant capture leaves a filled trap full")
                ex.oblige(IMP(NOT(inst), eq(e * (c + r), c * (ONE - X))), "post", "an empty trap fills by the two-rate law")
                ex.oblige(IMP(NOT(inst), eq((ONE - f) * (c + r), r * (ONE - X))), "post", "a filled trap empties by the two-rate law")
                ex.oblige(AND(ge(e, 0), le(e, f)), "post", "a filled trap stays filled at least as likely as an empty one fills")
                ex.oblige(le(f, 1), "post", "the probability to stay filled is at most one")
    return go


def slow_ctor(ex):
    axioms(ex)
    dens, tau, ct = Rv("dens"), Rv("tau"), Rv("ct")
    ex.env.assume(AND(gt(tau, 0), ge(ct, 0)))
    this = put(ex, "trap", ex.default_object("TrapSlowCapture"))
    call(ex, "TrapSlowCapture", "TrapSlowCapture", this, [dens, tau, ct])
    o = ex.store[this.root]
    with at(ex, "TrapSlowCapture::TrapSlowCapture"):
        for nm, v in (("density", dens), ("release_timescale", tau), ("capture_timescale", ct), ("fractional_volume_none_exposed", ZERO), ("fractional_volume_full_exposed", ZERO)):
            ex.oblige(eq(o.f[nm], v), "post", "%s is kept" % nm)
        ex.oblige(eq(o.f["release_rate"] * tau, 1), "post", "the release rate is one over the release time")
        ex.oblige(IMP(gt(ct, 0), eq(o.f["capture_rate"] * ct, 1)), "post", "the capture rate is one over the capture time")
        ex.oblige(IMP(eq(ct, 0), eq(o.f["capture_rate"], 0)), "post", "instant capture has rate zero")


def fill_fraction(ex):
    axioms(ex)
    tau, t = Rv("tau"), Rv("t")
    ex.env.assume(AND(gt(tau, 0), ge(t, 0)))
    o = Obj("TrapInstantCapture", {"density": Rv("d"), "release_timescale": tau, "release_rate": inverse(tau), "fractional_volume_none_exposed": Rv("none"), "fractional_volume_full_exposed": Rv("full")})
    this = put(ex, "trap", o)
    r = call(ex, "TrapInstantCapture", "fill_fraction_from_time_elapsed", this, [t])
    with at(ex, "TrapInstantCapture::fill_fraction_from_time_elapsed"):
        ex.oblige(eq(r, app("exp", [-t * inverse(tau)])), "post", "filled traps decay exponentially")
        ex.oblige(AND(ge(r, 0), le(r, 1)), "post", "the fill fraction is between zero and one")
