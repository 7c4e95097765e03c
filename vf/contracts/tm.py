"""Contracts of the trap managers (P01-P07, P15)."""
from terms import *
import terms as TT
from values import *
from exec import Infeasible

I = lambda n: var(n, "I")
Rv = lambda n: var(n, "R")


# ---------------------------------------------------------------- trusted/leaf contracts
def cfv(ex, this, args):
    """CCDPhase::cloud_fractional_volume_from_electrons: requires nothing;
    ensures 0 <= r <= 1, r = 0 when there is no charge, monotone (proved under P14)"""
    return app("CFV", [ex.num(args[0])])


def ax_cfv(args):
    x = args[0]; r = app("CFV", [x])
    return [ge(r, 0), le(r, 1), IMP(le(x, 0), eq(r, 0))]


def pair_cfv(a, b):
    x, y = a[0], b[0]
    return [IMP(le(x, y), le(app("CFV", [x]), app("CFV", [y])))]


def frac(ex, this, args):
    """fraction_traps_exposed_per_fractional_volume(a, b):
    requires a <= b; ensures r * (b - a) = G(b) - G(a)  (proved under P15)"""
    a, b = ex.num(args[0]), ex.num(args[1])
    t = [s for s in this.path if s[0] == "i"][-1][1][0]
    ex.oblige(le(a, b), "pre", "exposure range is ordered")
    return (app("G", [t, b]) - app("G", [t, a])) * inverse(b - a) if not (b - a).is_const() or (b - a).m else ZERO


def norm_G(args):
    """G(t, x): fraction of species t lying below height x (specification function).
    For a species spread uniformly through the well it is x."""
    if args[1] is ZERO: return ZERO
    return None


def rule_G(mono):
    """[full(t) == 0] * G(t, x) = [full(t) == 0] * x"""
    for a, e in mono:
        if a.kind == "ind":
            c = a.args[0]
            if c.op != "eq": continue
            at = as_atom(c.args[0])
            if at is None or at.kind != "app" or at.key[0] != "full": continue
            for g, eg in mono:
                if g.kind == "app" and g.key[0] == "G" and g.args[0] is at.args[0]: return g, g.args[1]
    return None


def ax_G(args):
    t, x = args
    g = app("G", args)
    return [IMP(ge(x, 0), ge(g, 0)), IMP(AND(ge(x, 0), le(x, 1)), le(g, 1)), IMP(eq(app("full", [t]), 0), eq(g, x))]


def pair_G(a, b):
    if a[0] is not b[0]: return []
    return [IMP(le(a[1], b[1]), le(app("G", list(a)), app("G", list(b))))]


def ax_div(args):
    """q = a / b for b != 0"""
    a, b = args
    q = app("div", [a, b])
    return [IMP(ne(b, 0), eq(q * b, a)),
            IMP(AND(gt(b, 0), ge(a, 0)), ge(q, 0)), IMP(AND(gt(b, 0), le(a, 0)), le(q, 0)),
            IMP(AND(gt(b, 0), le(a, b)), le(q, 1)), IMP(AND(gt(b, 0), ge(a, b)), ge(q, 1)),
            IMP(AND(gt(b, 0), gt(a, 0)), gt(q, 0)), IMP(AND(gt(b, 0), lt(a, b)), lt(q, 1))]


# ------------------------------------------------------------------- state
class TM:
    """a symbolic, arbitrary manager state satisfying the representation invariant"""

    def __init__(self, ex, cls, uniform=None):
        self.ex, self.cls = ex, cls
        self.f, self.n, self.T, self.NW = I("first"), I("active"), I("n_traps"), I("n_watermarks")
        if ex.choose(2):            # no level active / at least one
            self.n, self.f = ZERO, ZERO
        else:
            ex.env.assume(ge(self.n, 1))
        self.slow = "Slow" in cls
        self.cont = "Continuum" in cls
        self.ppt = 2 if self.slow else 1
        f, n, T, NW = self.f, self.n, self.T, self.NW
        env = ex.env
        tp = f + n
        def norm_H(args):
            if args[0] is f: return ZERO
            d = args[0] - tp
            if d is not ZERO and d.is_const() and d.const() > 0: return app("H", [tp])
            return None
        def norm_F(args):
            d = args[0] - tp
            return ZERO if d.is_const() and d.const() >= 0 else None
        TT._app_norm["H"] = norm_H
        TT._app_norm["F"] = norm_F
        app("H", [f])
        TT._app_norm["G"] = norm_G
        TT.MONO_RULE[0] = rule_G
        env.assume(AND(ge(f, 0), ge(n, 0), ge(T, 1), le(f + n + self.ppt + 1, NW)))
        top = f + n

        def ax_H(args):
            x = args[0]; h = app("H", [x])
            return [IMP(AND(le(f, x), le(x, top)), AND(ge(h, 0), le(h, 1))), IMP(eq(x, f), eq(h, 0)),
                    IMP(le(top, x), eq(h, app("H", [top])))]

        def pair_H(a, b):
            x, y = a[0], b[0]
            return [IMP(AND(le(f, x), le(x, y), le(y, top)), le(app("H", [x]), app("H", [y]))),
                    IMP(AND(le(top, x), le(top, y)), eq(app("H", [x]), app("H", [y])))]

        def ax_H0(args):
            return ax_H(args)

        def ax_F(args):
            r, c = args
            F = app("F", [r, c]); D = app("D", [c])
            return [IMP(AND(le(f, r), lt(r, top), le(0, c), lt(c, T)), AND(ge(F, 0), le(F, D))),
                    IMP(AND(le(top, r), le(0, c), lt(c, T)), eq(F, 0))]

        env.ax["div"] = ax_div
        env.ax.update({"H": ax_H, "F": ax_F, "CFV": ax_cfv, "G": ax_G,
                       "D": lambda a: [ge(app("D", [a[0]]), 0)],
                       "p": lambda a: [ge(app("p", [a[0]]), 0), le(app("p", [a[0]]), 1)],
                       "pe": lambda a: [ge(app("pe", [a[0]]), 0), le(app("pe", [a[0]]), 1)],
                       "pf": lambda a: [ge(app("pf", [a[0]]), 0), le(app("pf", [a[0]]), 1)],
                       })
        env.pair.update({"H": pair_H, "CFV": pair_cfv, "G": pair_G})
        # boundary facts used with monotonicity
        env.assume(le(app("H", [top]), 1))
        self.nu = boolvar("any_non_uniform") if not (self.slow or self.cont) else FALSE
        if uniform is True: self.nu = FALSE
        full = lambda r: app("full", [r])
        nu = self.nu
        env.ax["full"] = lambda a: [ge(full(a[0]), 0), IMP(NOT(nu), eq(full(a[0]), 0))]
        tcls = cls.replace("TrapManager", "Trap")
        trap = fun_arr(lambda r: Obj(tcls, {
            "density": app("dens0", [r]), "release_timescale": app("rts", [r]), "release_rate": app("rr", [r]),
            "capture_timescale": app("cts", [r]), "capture_rate": app("cr", [r]),
            "release_timescale_sigma": app("sig", [r]),
            "fractional_volume_none_exposed": app("none", [r]) if not (self.slow or self.cont) else ZERO,
            "fractional_volume_full_exposed": full(r) if not (self.slow or self.cont) else ZERO}), T)
        F = {
            "max_n_transfers": I("max_n_transfers"), "ccd_phase": Obj("CCDPhase", {
                "full_well_depth": Rv("fwd"), "well_notch_depth": Rv("wnd"), "well_fill_power": Rv("wfp"),
                "first_electron_fill": Rv("fef")}),
            "dwell_time": Rv("dwell"),
            "watermark_volumes": fun_arr(lambda r: app("H", [r + 1]) - app("H", [r]), NW),
            "watermark_fills": fun_arr(lambda r, c: app("F", [r, c]), T * NW, T),
            "stored_watermark_volumes": fun_arr(lambda r: app("SV", [r]), NW),
            "stored_watermark_fills": fun_arr(lambda r, c: app("SF", [r, c]), T * NW, T),
            "n_traps": T, "empty_watermark": ZERO, "zeroth_watermark": ZERO,
            "n_active_watermarks": n, "i_first_active_wmk": f, "n_watermarks_per_transfer": P(self.ppt),
            "n_watermarks": NW, "stored_n_active_watermarks": I("s_active"),
            "stored_i_first_active_wmk": I("s_first"),
            "trap_densities": fun_arr(lambda r: app("D", [r]), T),
            "traps": trap,
        }
        pr = fun_arr(lambda r: app("p", [r]), T)
        if not self.cont:
            F["empty_probabilities_from_release"] = pr
        if not self.slow and not self.cont:
            F["any_non_uniform_traps"] = self.nu
        if self.slow and not self.cont:
            F["fill_probabilities_from_empty"] = fun_arr(lambda r: app("pe", [r]), T)
            F["fill_probabilities_from_full"] = fun_arr(lambda r: app("pf", [r]), T)
        if self.cont:
            F["time_min"] = Rv("time_min"); F["time_max"] = Rv("time_max"); F["n_intp"] = I("n_intp")
        self.obj = Obj(cls, F)
        self.root = ("this",)
        ex.store[self.root] = self.obj
        self.this = Ref(self.root)

    def cur(self): return self.ex.store[self.root]

    # ----------------------------------------------------- specification
    def energy(self, o):
        """total number of electrons held in the traps (specification)"""
        ex = self.ex
        f, n, T = o.f["i_first_active_wmk"], o.f["n_active_watermarks"], self.T
        V, F = o.f["watermark_volumes"], o.f["watermark_fills"]
        if self.nu is FALSE or ex.env.decide(self.nu, 1) is False:
            return ex.sum_fn(f, f + n, lambda k: ex.read(V, (k,)) *
                             ex._sum_fn(ZERO, T, lambda t: ex.read(F, (k, t)), 0))
        def cum(k):
            return ex._sum_fn(f, k, lambda j: ex.read(V, (j,)), 0)
        def row(k):
            a = ex.simp(cum(k)); b = a + ex.read(V, (k,))
            def el(t):
                g = app("G", [t, b]) - app("G", [t, a])
                return ex.read(F, (k, t)) * g
            return ex._sum_fn(ZERO, T, el, 0)
        return ex.sum_fn(f, f + n, row)

    def check_inv(self, o, grow):
        """the representation invariant, and how far the active levels may have grown"""
        ex = self.ex
        f, n, T, NW = o.f["i_first_active_wmk"], o.f["n_active_watermarks"], self.T, self.NW
        V, F = o.f["watermark_volumes"], o.f["watermark_fills"]
        ob = lambda form, text: ex.oblige(form, "inv", text)
        ob(ge(f, 0), "first active level is not negative")
        ob(ge(n, 0), "number of active levels is not negative")
        if grow is not None:
            ob(le(f + n, self.f + self.n + grow), "levels grow by at most %d" % grow)
        ob(OR(ge(n, 1), eq(f, 0)), "with no active level the first is level 0")
        ob(le(f + n, NW), "active levels fit the storage")
        # pointwise, for an arbitrary level and species
        i, t = fresh("lvl", "I"), fresh("spc", "I")
        ex.env.push()
        ex.env.assume(AND(le(0, t), lt(t, T), le(0, i), lt(i, NW)))
        act = AND(le(f, i), lt(i, f + n))
        ex.locals.add(the_atom(i)); ex.locals.add(the_atom(t))
        ex.env.push(); ex.env.assume(act)
        fv = ex.read(F, (i, t)); vv = ex.read(V, (i,))
        ob(ge(vv, 0), "level volume is not negative")
        ob(ge(fv, 0), "trap occupancy is not negative")
        ob(le(fv, app("D", [t])), "trap occupancy is at most the density")
        ex.env.pop()
        ex.env.push(); ex.env.assume(le(f + n, i))
        fv = ex.read(F, (i, t)); vv = ex.read(V, (i,))
        ob(AND(eq(vv, 0), eq(fv, 0)), "slots above the active levels are clear")
        ex.env.pop()
        ex.env.pop()
        tot = ex.sum_fn(f, f + n, lambda k: ex.read(V, (k,)))
        ob(le(tot, 1), "levels do not reach above the well")
        for nm in ("watermark_volumes", "watermark_fills"):
            ob(eq(o.f[nm].length, self.obj.f[nm].length), "storage keeps its size")
        for nm in ("n_traps", "empty_watermark", "zeroth_watermark", "n_watermarks", "max_n_transfers",
                   "n_watermarks_per_transfer", "dwell_time"):
            ob(eq(o.f[nm], self.obj.f[nm]), "frame: %s unchanged" % nm)


LEAF = {
    "CCDPhase::cloud_fractional_volume_from_electrons": cfv,
    "TrapInstantCapture::fraction_traps_exposed_per_fractional_volume": frac,
}


def exchange(cls, uniform):
    def go(ex):
        tm = TM(ex, cls, uniform)
        if uniform is False:
            ex.env.assume(tm.nu)
        E0 = tm.energy(tm.cur())
        x = Rv("n_free")
        d, own = ex.prog.method(cls, "n_electrons_released_and_captured", 1)
        import cast
        p = cast.params(d)[0]
        r = ex.call_body(d, own, tm.this, [(p, ("val", x))], own + "::n_electrons_released_and_captured")
        ex.fnstack.append(own + "::n_electrons_released_and_captured")
        E1 = tm.energy(tm.cur())
        ex.oblige(eq(E1 + r, E0), "conserve", "electrons released minus captured equals the change of the trapped total")
        ex.oblige(IMP(ge(x, 0), ge(x + r, 0)), "available", "no more captured than available")
        tm.check_inv(tm.cur(), tm.ppt)
        ex.fnstack.pop()
    return go
