"""Contracts of setting up the trap managers (P27)."""
from contracts.base import *
from contracts.state import KINDS
from invariant import equal

PPT = {"ic": 1, "ic_co": 1, "sc": 2, "sc_co": 2}
TRAP_FIELDS = ("density", "release_timescale", "release_rate", "fractional_volume_none_exposed", "fractional_volume_full_exposed",
               "capture_timescale", "capture_rate", "release_timescale_sigma")


def species(k, c, T):
    return fun_arr(lambda t: Obj("Trap" + c, {f: app("%s_%s" % (k, f), [t]) for f in TRAP_FIELDS}), T)


def well(name, at):
    mk = lambda f: app(name + f, at) if at else Rv(name + f)
    return Obj("CCDPhase", {f: mk(f) for f in ("full_well_depth", "well_notch_depth", "well_fill_power", "first_electron_fill")})


def made(ex, o, traps, maxt, phase, dwell, ppt, text):
    """what a manager's constructor ensures"""
    T = traps.length
    ob = lambda f, t: ex.oblige(f, "post", "%s: %s" % (text, t))
    ob(eq(o.f["n_traps"], T), "every species is there")
    ob(eq(o.f["max_n_transfers"], maxt), "number of transfers")
    ob(eq(o.f["dwell_time"], dwell), "dwell time")
    ob(eq(o.f["n_watermarks_per_transfer"], ppt), "levels made in each transfer")
    for f in ("zeroth_watermark", "empty_watermark", "n_active_watermarks", "i_first_active_wmk"): ob(eq(o.f[f], 0), f + " starts at zero")
    equal(ex, o.f["ccd_phase"], phase, "post", text + ": well")
    equal(ex, o.f["trap_densities"], fun_arr(lambda t: ex.read(traps, (t,)).f["density"], T), "post", text + ": densities")
    if not ex.same(o.f["traps"], traps):
        ob(eq(o.f["traps"].length, T), "species are copied")
        t = element(ex, T, "species")
        equal(ex, ex.read(o.f["traps"], (t,)), ex.read(traps, (t,)), "post", text + ": species are copied")


def constructor(k, c):
    cls = "TrapManager" + c
    def go(ex):
        T, N = I("n_species"), I("max_n_transfers")
        ex.env.assume(AND(ge(T, 1), ge(N, 0)))
        traps, ph, dw = species(k, c, T), well("well", []), Rv("dwell")
        ref = put(ex, "manager", ex.default_object(cls))
        call(ex, cls, cls, ref, [traps, N, ph, dw], 4)
        with at(ex, cls + "::" + cls):
            made(ex, ex.load(ref), traps, N, ph, dw, PPT[k], "manager")
    return go


def collection(ex):
    NP, S, N = I("n_phases"), I("n_steps"), I("max_n_transfers")
    ex.env.assume(AND(ge(NP, 1), ge(S, NP), ge(N, 0)))
    phases = fun_arr(lambda p: well("well", [p]), NP)
    share = fun_arr(lambda p: app("share", [p]), NP)
    dwell = fun_arr(lambda p: app("dwell", [p]), S)
    ccd = Obj("CCD", {"phases": phases, "fraction_of_traps_per_phase": share, "n_phases": NP})
    sets, contracts = {}, {}
    for k, c in KINDS:
        T = I("n_" + k)
        ex.env.assume(ge(T, 0))
        sets[k] = species(k, c, T)
        contracts["TrapManager%s::TrapManager%s" % (c, c)] = construct(k, c)
        contracts["TrapManager%s::setup" % c] = setup
    ex.contracts = dict(ex.contracts, **contracts)
    ref = put(ex, "managers", ex.default_object("TrapManagerManager"))
    cls = "TrapManagerManager"
    ins = [put(ex, "in_" + k, sets[k]) for k, c in KINDS]
    dref = put(ex, "in_dwell", dwell)
    call(ex, cls, cls, ref, ins + [N, ccd, dref], 7)
    with at(ex, "TrapManagerManager::TrapManagerManager"):
        new = ex.load(ref)
        for r, (k, c) in zip(ins, KINDS): ex.oblige(TRUE if ex.same(ex.load(r), sets[k]) else FALSE, "frame", "the supplied traps are not changed")
        ex.oblige(TRUE if ex.same(ex.load(dref), dwell) else FALSE, "frame", "the dwell times are not changed")
        p = element(ex, NP, "phase")
        for k, c in KINDS:
            T = sets[k].length
            ex.oblige(eq(new.f["n_traps_" + k], T), "post", "number of species")
            if not ex.branch(gt(T, 0)): continue
            arr = new.f["trap_managers_" + k]
            ex.oblige(eq(arr.length, NP), "post", "one trap manager for each phase")
            m = ex.read(arr, (p,))
            text = "manager of a phase"
            n = N * S * PPT[k] + 1
            ob = lambda f, t: ex.oblige(f, "post", "%s: %s" % (text, t))
            ob(eq(m.f["dwell_time"], app("dwell", [p])), "the phase's dwell time")
            equal(ex, m.f["ccd_phase"], well("well", [p]), "post", text + ": the phase's well")
            ob(eq(m.f["n_traps"], T), "every species")
            ob(eq(m.f["max_n_transfers"], N * S), "transfers times steps")
            equal(ex, m.f["trap_densities"], fun_arr(lambda t: app("%s_density" % k, [t]) * app("share", [p]), T), "post",
                  text + ": densities times the phase's share")
            ob(eq(m.f["n_watermarks"], n), "storage for transfers times steps exchanges")
            for f, ln in (("watermark_volumes", n), ("watermark_fills", n * T)):
                ob(eq(m.f[f].length, ln), f + " has the storage's size")
                ob(eq(m.f["stored_" + f].length, ln), "saved " + f + " has the storage's size")
            ob(m.f["ready"], "set up after its densities are final")
            t = element(ex, T, "species")
            equal(ex, ex.read(m.f["traps"], (t,)), ex.read(sets[k], (t,)), "post", text + ": the species themselves")


def construct(k, c):
    def h(ex, this, vals):
        """constructor of a manager, by contract (discharged for each class)"""
        traps, N, ph, dw = vals
        T = traps.length
        o = ex.default_object("TrapManager" + c).f
        o.update({"traps": traps, "max_n_transfers": N, "ccd_phase": ph, "dwell_time": dw, "n_traps": T,
                  "n_watermarks_per_transfer": P(PPT[k]), "ready": FALSE, "zeroth_watermark": ZERO, "empty_watermark": ZERO,
                  "n_active_watermarks": ZERO, "i_first_active_wmk": ZERO,
                  "trap_densities": fun_arr(lambda t: ex.read(traps, (t,)).f["density"], T)})
        return Obj("TrapManager" + c, o)
    return h


def setup(ex, this, vals):
    """setup of a manager, by contract (initialise_trap_states: P07; probabilities and tables: P16, P17)"""
    o = ex.load(this)
    n = o.f["max_n_transfers"] * o.f["n_watermarks_per_transfer"] + 1
    T = o.f["n_traps"]
    for f, v in (("n_watermarks", n), ("watermark_volumes", const_arr(ZERO, n)), ("watermark_fills", const_arr(ZERO, n * T)),
                 ("stored_watermark_volumes", const_arr(ZERO, n)), ("stored_watermark_fills", const_arr(ZERO, n * T)),
                 ("stored_n_active_watermarks", o.f["n_active_watermarks"]), ("stored_i_first_active_wmk", o.f["i_first_active_wmk"]),
                 ("ready", TRUE)):
        ex.storeto(this.field(f), v)
    return None


KEEP = ("trap_densities", "dwell_time", "ccd_phase", "n_traps", "max_n_transfers", "n_watermarks_per_transfer")


def setup_of(k, c):
    """setup of one manager: makes the storage once, leaves what the constructor set"""
    cls = "TrapManager" + c
    def go(ex):
        T, N = I("n_species"), I("max_n_transfers")
        ex.env.assume(AND(ge(T, 1), ge(N, 0)))
        old = construct(k, c)(ex, None, [species(k, c, T), N, well("well", []), Rv("dwell")])
        ref = put(ex, "manager", old)
        n = []

        def init(ex, this, vals):
            """initialise_trap_states by contract (P07)"""
            n.append(1)
            o = ex.load(this)
            for f in KEEP: equal(ex, o.f[f], old.f[f], "pre", "storage is made for the manager as constructed: " + f)
            setup(ex, this, vals)

        def other(ex, this, vals): return None
        tables = {"TrapManager%s::%s" % (c, f): other for f in ("prepare_interpolation_tables", "set_fill_probabilities")}
        d = [ex.prog.method(cls, f, 0) for f in ("prepare_interpolation_tables", "set_fill_probabilities")]
        for r in d:
            if r is None: continue
            from invariant import Mods
            class F: this = ref
            m = Mods(ex)
            ex.frames.append(F)
            try: m.scan(cast.body(r[0]))
            finally: ex.frames.pop()
            bad = [f for f in m.fields if f in KEEP or "watermark" in f or "wmk" in f]
            if bad: raise Unsupported("%s::%s may modify %s" % (cls, r[0]["name"], bad[0]))
        ex.contracts = dict(ex.contracts, **{"TrapManagerBase::initialise_trap_states": init}, **tables)
        call(ex, cls, "setup", ref, [])
        with at(ex, cls + "::setup"):
            o = ex.load(ref)
            ex.oblige(TRUE if n else FALSE, "post", "the storage is made")
            for f in KEEP: equal(ex, o.f[f], old.f[f], "frame", "setup leaves %s alone" % f)
            ex.oblige(o.f["ready"], "post", "the storage is made")
    return go
