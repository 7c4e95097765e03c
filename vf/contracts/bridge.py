"""Contract of the Python bridge (P24): the flat-array add_cti hands everything to the library's add_cti."""
import os
from contracts.base import *
from invariant import equal

SOURCE = os.path.join(cast.REPO, "python", "arcticpy", "src", "interface.cpp")


def program():
    return cast.Program([SOURCE, "ccd.cpp", "cti.cpp"], ("-I", os.path.join(cast.REPO, "python", "arcticpy", "include")))


def definition(ex, flat):
    """the definition of add_cti that takes flat arrays, or the library's"""
    ds = [d for d in ex.prog._cands("add_cti") if d["kind"] == "FunctionDecl" and cast.has_body(d) and ("*" in cast.params(d)[0]["type"]["qualType"]) == flat]
    if len({len(cast.params(d)) for d in ds}) != 1: raise Unsupported("definitions of add_cti")
    return ds[0]


# what the library's constructors are given, by parameter (their effect on these: P26, P27, P15, P16)
SETTINGS = {"ROE": ("dwell_times", "prescan_offset", "overscan_start", "empty_traps_between_columns", "empty_traps_for_first_transfers",
                    "force_release_away_from_readout", "use_integer_express_matrix"),
            "ROEChargeInjection": ("dwell_times", "prescan_offset", "overscan_start", "empty_traps_between_columns", "force_release_away_from_readout",
                                   "use_integer_express_matrix"),
            "ROETrapPumping": ("dwell_times", "n_pumps", "empty_traps_for_first_transfers", "use_integer_express_matrix")}
TRAPS = {"TrapInstantCapture": 4, "TrapSlowCapture": 3, "TrapInstantCaptureContinuum": 3, "TrapSlowCaptureContinuum": 4}
PARAMS = ("trap_densities", "trap_release_timescales", "trap_third_params", "trap_fourth_params")
KINDS = (("ic", "TrapInstantCapture"), ("sc", "TrapSlowCapture"), ("ic_co", "TrapInstantCaptureContinuum"), ("sc_co", "TrapSlowCaptureContinuum"))
WELL = (("full_well_depth", "full_well_depths"), ("well_notch_depth", "well_notch_depths"), ("well_fill_power", "well_fill_powers"),
        ("first_electron_fill", "first_electron_fills"))


def made(cls, fields):
    def go(ex, this, vals):
        vals = list(vals)
        if len(vals) != len(fields): raise Unsupported("arguments of %s" % cls)
        return Obj(cls, dict(zip(fields, vals)))
    return go


def bridge(parallel, serial):
    """parallel, serial: are there traps in that direction"""
    def go(ex):
        R, C = I("n_image_rows"), I("n_image_columns")
        ex.env.assume(AND(ge(R, 1), ge(C, 1)))
        ps = cast.params(definition(ex, True))
        A, ints = {}, {}
        for p in ps:
            n, t = p["name"], p["type"]["qualType"]
            if t.startswith("int"): A[n] = ints[n] = {"n_rows": R, "n_columns": C}.get(n) or I(n)
            elif t == "bool": A[n] = boolvar(n)
        with at(ex, "add_cti (interface)"):
            for d in ("parallel", "serial"):
                for n in ("n_steps", "n_phases", "roe_type") + tuple("n_traps_" + k for k, c in KINDS):
                    if d + "_" + n not in A: raise Unsupported("parameter %s_%s of the bridge" % (d, n))
        for d, on in (("parallel", parallel), ("serial", serial)):
            ns = [A["%s_n_traps_%s" % (d, k)] for k, c in KINDS]
            total = sum(ns, ZERO)
            ex.env.assume(AND(ge(A[d + "_n_steps"], 1), ge(A[d + "_n_phases"], 1), *[ge(n, 0) for n in ns]))
            ex.env.assume(ge(total, 1) if on else AND(*[le(n, 0) for n in ns]))
            size = {"dwell_times_in": A[d + "_n_steps"], "prune_n_electrons": ONE}
            for n in ("fraction_of_traps_per_phase_in",) + tuple(w for f, w in WELL): size[n] = A[d + "_n_phases"]
            for n in PARAMS: size[n] = total
            for n, l in size.items(): A[d + "_" + n] = put(ex, d + "_" + n, fun_arr(lambda i, nm=d + "_" + n: app(nm, [i]), l))
        X = lambda i, j: app("X", [i, j])
        A["image"] = put(ex, "image", fun_arr(X, R * C, C))
        missing = [p["name"] for p in ps if p["name"] not in A]
        if missing: raise Unsupported("parameter %s of the bridge" % missing[0])
        calls = []

        def core(ex, this, vals):
            """the library's add_cti: leaves its input alone; its result has the shape of its input"""
            if ex.merge: raise Unsupported("call of add_cti in a merged branch")
            ns = [p["name"] for p in cast.params(definition(ex, False))]
            a = dict(zip(ns, vals))
            calls.append(a)
            im = ex.load(vals[0]) if isinstance(vals[0], Ref) else vals[0]
            received(ex, a, im)
            return image("RESULT", R, C)

        def received(ex, a, im):
            ob = lambda f, t: ex.oblige(f, "post", t)
            if not isinstance(im, Arr): raise Unsupported("image handed to the library")
            i, j = element(ex, R, "row"), element(ex, C, "col")
            ob(AND(eq(nrows(ex, im), R)), "the image has all rows")
            ob(eq(ncols(ex, im, i), C), "the image has all columns")
            ob(eq(pixel(ex, im, i, j), X(i, j)), "the image is handed over pixel by pixel")
            for n in ("allow_negative_pixels", "verbosity", "iteration"): equal(ex, a[n], A[n], "post", "%s is handed over" % n)
            for d, on in (("parallel", parallel), ("serial", serial)):
                for n in ("window_start", "window_stop"): equal(ex, a["%s_%s" % (d, n)], A["%s_%s" % (d, n)], "post", "%s_%s is handed over" % (d, n))
                if not on:
                    if any(a["%s_traps_%s" % (d, k)] is not NULL for k, c in KINDS): raise Unsupported("traps of a direction without traps")
                    continue
                direction(ex, d, a)

        def direction(ex, d, a):
            text = lambda n: "%s %s" % (d, n)
            arr = lambda n: ex.load(A["%s_%s" % (d, n)])
            for n in ("express", "offset", "time_start", "time_stop", "prune_frequency"): equal(ex, a[d + "_" + n], A[d + "_" + n], "post", text(n))
            equal(ex, a[d + "_prune_n_electrons"], ex.read(arr("prune_n_electrons"), (ZERO,)), "post", text("prune_n_electrons"))
            roe = a[d + "_roe"]
            roe = ex.load(roe) if isinstance(roe, Ref) else roe
            ty = A[d + "_roe_type"]
            want = "ROE" if ex.branch(eq(ty, 0)) else ("ROEChargeInjection" if ex.branch(eq(ty, 1)) else "ROETrapPumping")
            ok = isinstance(roe, Obj) and roe.cls == want
            ex.oblige(TRUE if ok else FALSE, "post", text("electronics are of the type asked for"))
            if ok:
                for f in SETTINGS[want]:
                    equal(ex, roe.f[f], arr("dwell_times_in") if f == "dwell_times" else A["%s_%s" % (d, f)], "post", text("electronics: " + f))
            ccd = a[d + "_ccd"]
            ccd = ex.load(ccd) if isinstance(ccd, Ref) else ccd
            ex.oblige(TRUE if isinstance(ccd, Obj) else FALSE, "post", text("CCD is there"))
            if isinstance(ccd, Obj):
                N = A[d + "_n_phases"]
                equal(ex, ccd.f["fraction_of_traps_per_phase"], arr("fraction_of_traps_per_phase_in"), "post", text("fraction of traps per phase"))
                ex.oblige(eq(ccd.f["n_phases"], N), "post", text("number of phases"))
                ex.oblige(eq(ccd.f["phases"].length, N), "post", text("phases"))
                p = element(ex, N, "phase")
                for f, w in WELL: ex.oblige(eq(ex.read(ccd.f["phases"], (p,)).f[f], ex.read(arr(w), (p,))), "post", text("phases: " + f))
            first = ZERO
            for k, c in KINDS:
                n = A["%s_n_traps_%s" % (d, k)]
                t = a["%s_traps_%s" % (d, k)]
                t = ex.load(t) if isinstance(t, Ref) else t
                if t is NULL: ex.oblige(eq(n, 0), "post", text("traps_%s are handed over" % k))
                elif not isinstance(t, Arr): raise Unsupported("traps handed to the library")
                else:
                    ex.oblige(eq(t.length, n), "post", text("number of traps_%s" % k))
                    if ex.branch(ge(n, 1)):
                        i = element(ex, n, "trap")
                        o = ex.read(t, (i,))
                        ex.oblige(TRUE if o.cls == c else FALSE, "post", text("kind of traps_%s" % k))
                        for q in range(TRAPS[c]): ex.oblige(eq(o.f[PARAMS[q]], ex.read(arr(PARAMS[q]), (first + i,))), "post", text("traps_%s: %s" % (k, PARAMS[q])))
                first = first + n

        cs = {"add_cti": core, "set_verbosity": lambda ex, this, vals: equal(ex, vals[0], A["verbosity"], "post", "verbosity is set")}
        for c, fs in SETTINGS.items(): cs["%s::%s" % (c, c)] = made(c, fs)
        for c, n in TRAPS.items(): cs["%s::%s" % (c, c)] = trap(c, n)
        ex.contracts = dict(ex.contracts, **cs)
        d = definition(ex, True)
        binds = [(p, ("val", A[p["name"]])) for p in ps]
        ex.inlined.add("add_cti (interface)")
        ex.call_body(d, None, None, binds, "add_cti (interface)")
        with at(ex, "add_cti (interface)"):
            ex.oblige(TRUE if len(calls) == 1 else FALSE, "post", "the library's add_cti is called once")
            i, j = element(ex, R, "row"), element(ex, C, "col")
            ex.oblige(eq(ex.read(ex.store[A["image"].root], (i, j)), app("RESULT", [i, j])), "post", "the image becomes the library's result")
    return go


def trap(c, n):
    def go(ex, this, vals):
        vals = list(vals)[:4] + [ZERO] * (4 - len(vals))
        return Obj(c, dict(zip(PARAMS, vals)))
    return go
