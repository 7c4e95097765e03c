"""Contracts of add_cti and remove_cti (P18, P19): callees by contract, calls recorded in a ghost history."""
from contracts.base import *
from invariant import ByInvariant, equal

IM = "valarray<valarray<double> >"


def arguments(ex, name, im, given):
    """a symbolic argument for every parameter of the function after the image"""
    d = ex.prog.function(name, None)
    out = []
    for p in cast.params(d)[1:]:
        n, t = p["name"], p["type"]["qualType"]
        if n in given: v = given[n]
        elif "*" in t: v = Ptr(n)
        elif "double" in t: v = Rv(n)
        else: v = I(n)
        out.append((n, v))
    return out


def names(ex, fn):
    return [p["name"] for p in cast.params(ex.prog.function(fn, None))]


class Calls:
    """ghost history of the clocking calls"""
    def __init__(self): self.log = []

    def clock(self, ex, this, vals):
        """clock_charge_in_one_direction(image, ...): the image is left alone and the result, of the
        same shape, is a function of the image and the arguments (discharged: see P23, P08)"""
        im = ex.load(vals[0]) if isinstance(vals[0], Ref) else vals[0]
        a = dict(zip(names(ex, "clock_charge_in_one_direction"), vals))
        k = len(self.log)
        if ex.merge: raise Unsupported("clocking call in a merged branch")
        r = image("CLK%d" % k, nrows(ex, im), ncols(ex, im, ZERO))
        self.log.append((im, a, r))
        return r


def shape(ex):
    R, C = I("n_rows"), I("n_cols")
    ex.env.assume(AND(ge(R, 1), ge(C, 1)))
    return R, C


def same_image(ex, got, want, kind, text):
    """want: (rows, cols, f(i, j))"""
    R, C, f = want
    if isinstance(got, Ref): got = ex.load(got)
    ex.oblige(AND(eq(nrows(ex, got), R)), kind, text + ": rows")
    i = element(ex, R, "row"); j = element(ex, C, "col")
    ex.oblige(eq(ncols(ex, got, i), C), kind, text + ": columns")
    ex.oblige(eq(pixel(ex, got, i, j), f(i, j)), kind, text)


PAIRS = [("roe", "roe"), ("ccd", "ccd"), ("traps_ic", "traps_ic"), ("traps_sc", "traps_sc"), ("traps_ic_co", "traps_ic_co"), ("traps_sc_co", "traps_sc_co"),
         ("express", "express"), ("row_offset", "offset"), ("time_start", "time_start"), ("time_stop", "time_stop"),
         ("prune_n_electrons", "prune_n_electrons"), ("prune_frequency", "prune_frequency")]


def add_cti(ex):
    R, C = shape(ex)
    calls = Calls()
    ex.contracts = dict(ex.contracts, clock_charge_in_one_direction=calls.clock)
    X = lambda i, j: app("X", [i, j])
    ref = put(ex, "image", image("X", R, C))
    before = ex.store[ref.root]
    args = arguments(ex, "add_cti", ref, {})
    A = dict(args)
    with at(ex, "add_cti"):
        for need in ("parallel_roe", "serial_roe", "parallel_window_start", "serial_window_stop"):
            if need not in A: raise Unsupported("parameter %s of add_cti" % need)
    out = call(ex, None, "add_cti", None, [ref] + [v for n, v in args])
    traps = lambda d: OR(*[A[d + t].set for t in ("_traps_ic", "_traps_sc", "_traps_ic_co", "_traps_sc_co")])
    with at(ex, "add_cti"):
        ex.oblige(TRUE if ex.same(ex.store[ref.root], before) else FALSE, "frame", "the input image is not changed")
        cur = (R, C, X)
        log = list(calls.log)
        for d, o, tr in (("parallel", "serial", False), ("serial", "parallel", True)):
            on = ex.branch(traps(d))
            if not on: continue
            ex.oblige(TRUE if log else FALSE, "post", "with %s traps the image is clocked in that direction" % d)
            if not log: return
            im, a, r = log.pop(0)
            R0, C0, f = cur
            if tr: want = (C0, R0, lambda i, j: f(j, i))
            else: want = cur
            same_image(ex, im, want, "post", "%s clocking starts from the right image" % d)
            for pn, nm in PAIRS:
                equal(ex, a[pn], A[d + "_" + nm], "post", "%s clocking gets the %s setting" % (d, nm))
            for p, q in (("row_start", d + "_window_start"), ("row_stop", d + "_window_stop"),
                         ("column_start", o + "_window_start"), ("column_stop", o + "_window_stop")):
                pn = {"row_start": ROWCOL[0], "row_stop": ROWCOL[1], "column_start": ROWCOL[2], "column_stop": ROWCOL[3]}[p]
                equal(ex, a[pn], A[q], "post", "%s clocking gets %s as its %s" % (d, q, p))
            equal(ex, a["allow_negative_pixels"], A["allow_negative_pixels"], "post", "%s clocking gets allow_negative_pixels" % d)
            g = lambda i, j, r=r: pixel(ex, r, i, j)
            cur = (R0, C0, (lambda i, j, g=g: g(j, i))) if tr else (R0, C0, g)
        ex.oblige(TRUE if not log else FALSE, "post", "no other clocking takes place")
        same_image(ex, out, cur, "post", "the result is the image after the last direction")


ROWCOL = ("row_start", "row_stop", "column_start", "column_stop")


def remove_cti(ex):
    R, C = shape(ex)
    X = lambda i, j: app("X", [i, j])
    EST = lambda k, i, j: app("EST", [k, i, j])
    ADD = lambda k, i, j: app("ADD", [k, i, j])
    neg = boolvar("negative_allowed")
    N = I("n_iterations")
    ref = put(ex, "image", image("X", R, C))
    before = ex.store[ref.root]
    allow = I("allow_negative_pixels")
    args = arguments(ex, "remove_cti", ref, {"n_iterations": N})
    A = dict(args)
    hist = {}

    def add(ex, this, vals):
        """add_cti(image, ...): the image is left alone; the result is a function of the image and the
        settings (P18)"""
        k = hist.get("k")
        if k is None: raise Unsupported("add_cti outside the iteration")
        a = dict(zip(names(ex, "add_cti"), vals))
        im = ex.load(vals[0]) if isinstance(vals[0], Ref) else vals[0]
        same_image(ex, im, (R, C, lambda i, j: EST(k, i, j)), "post", "CTI is added to the current estimate")
        for n, v in A.items():
            if n in ("n_iterations", "verbosity"): continue
            equal(ex, a[n], v, "post", "CTI is added with the same %s" % n)
        hist["calls"] = hist.get("calls", 0) + 1
        return image_k("ADD", k, R, C)

    def estimate(ex, k, entry):
        hist["k"] = k
        out = {}
        for ref_, v in entry.values():
            if isinstance(v, Arr) and v.tag == "nested" and ex.same(v, before): out[ref_] = image_k("EST", k, R, C) if k is not ZERO else before
        if not out: raise Unsupported("no variable of the loop starts as the input image")
        return out

    def after(ex, k, entry):
        ex.oblige(TRUE if hist.get("calls") == 1 else FALSE, "post", "CTI is added once in each iteration")
        def step(r, c):
            s = EST(k, r, c) + X(r, c) - ADD(k, r, c)
            return ite(AND(eq(A["allow_negative_pixels"], 0), lt(s, 0)), ZERO, s)
        return {r: fun2(step, R, C) for r, v in entry.values() if isinstance(v, Arr) and v.tag == "nested" and ex.same(v, before)}

    ex.contracts = dict(ex.contracts, add_cti=add)
    ex.invariants = {"iteration": ByInvariant("remove_cti", estimate, after, lambda ex, k: le(k, N))}
    ex.env.assume(ge(N, 0))
    out = call(ex, None, "remove_cti", None, [ref] + [v for n, v in args])
    with at(ex, "remove_cti"):
        ex.oblige(TRUE if ex.same(ex.store[ref.root], before) else FALSE, "frame", "the input image is not changed")
        K = hist.get("k")
        if K is None:
            same_image(ex, out, (R, C, X), "post", "no iteration returns the input image"); return
        ex.oblige(eq(K, N), "post", "exactly n iterations are made")
        same_image(ex, out, (R, C, lambda i, j: EST(K, i, j)), "post", "the result is the last estimate")


def image_k(name, k, R, C):
    return fun2(lambda r, c: app(name, [k, r, c]), R, C)


def fun2(f, R, C):
    r, c = idxvars(True)
    return Arr(R * C, C, r, c, [(TRUE, f(from_atom(r), from_atom(c)))], "nested")
