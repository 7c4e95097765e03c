"""Contracts of the readout electronics: construction and copying (P26)."""
from contracts.base import *
from invariant import equal, ByInvariant, IFF

SETTINGS = ("dwell_times", "prescan_offset", "overscan_start", "empty_traps_between_columns", "empty_traps_for_first_transfers",
            "force_release_away_from_readout", "use_integer_express_matrix", "type", "n_steps", "n_phases", "n_pumps")
FLAGS = SETTINGS[3:7]


def values_only(ex):
    """the settings are held by value: no member is a reference or a pointer"""
    seen = 0
    for c in ("ROE", "ROEChargeInjection", "ROETrapPumping"):
        for n, t, i, s in ex.prog.fields(c):
            seen += 1
            if "&" in t or "*" in t: raise Unsupported("%s::%s is shared" % (c, n))
    if seen < len(SETTINGS): raise Unsupported("members of ROE")


def electronics(ex, name, cls="ROE"):
    o = ex.default_object(cls)
    f = dict(o.f)
    S = I(name + "_steps_held")
    ex.env.assume(ge(S, 1))
    f["dwell_times"] = fun_arr(lambda s: app(name + "_dwell", [s]), S)
    for n in SETTINGS[1:]: f[n] = boolvar(name + "_" + n) if n in FLAGS else I(name + "_" + n)
    M = I(name + "_matrix"); ex.env.assume(ge(M, 0))
    f["express_matrix"] = fun_arr(lambda s: app(name + "_em", [s]), M)
    f["n_express_passes"] = I(name + "_passes")
    for n in SETTINGS:
        if n not in o.f: raise Unsupported("setting %s of ROE" % n)
    return Obj(cls, f)


def assign(alias):
    def go(ex):
        values_only(ex)
        a, b = electronics(ex, "a"), electronics(ex, "b")
        ra = put(ex, "target", a)
        rb = ra if alias else put(ex, "source", b)
        if alias: b = a
        r = call(ex, "ROE", "operator=", ra, [rb])
        with at(ex, "ROE::operator="):
            n, s = ex.load(ra), ex.load(rb)
            for f in SETTINGS: equal(ex, n.f[f], b.f[f], "post", "%s is copied" % f)
            for f in s.f:
                if alias and f not in SETTINGS: continue
                equal(ex, s.f[f], b.f[f], "frame", "the source keeps its %s" % f)
    return go


def construct(cls):
    def go(ex):
        values_only(ex)
        S = I("n_given"); ex.env.assume(ge(S, 1))
        dw = fun_arr(lambda s: app("dwell", [s]), S)
        ref, d = put(ex, "object", ex.default_object(cls)), put(ex, "given", dw)
        pre, over = I("prescan_offset"), I("overscan_start")
        b = {n: boolvar(n) for n in FLAGS}
        pumps = I("n_pumps")
        if cls == "ROE": args, bad = [d, pre, over] + [b[n] for n in FLAGS], OR(lt(pre, 0), AND(ne(over, -1), le(over, 0)))
        elif cls == "ROEChargeInjection":
            args, bad = [d, pre, over, b[FLAGS[0]], b[FLAGS[2]], b[FLAGS[3]]], OR(lt(pre, 0), AND(ne(over, -1), le(over, 0)))
            b[FLAGS[1]] = FALSE
        else:
            args, bad = [d, pumps, b[FLAGS[1]], b[FLAGS[3]]], FALSE
            pre, over, b[FLAGS[0]], b[FLAGS[2]] = ZERO, P(-1), TRUE, FALSE
            h = I("pairs"); ex.env.assume(AND(ge(h, 1), eq(S, 2 * h)))      # an odd number of steps: main error, not under contract here
        names = [p["name"] for p in cast.params(ex.prog.method(cls, cls, len(args))[0])]

        def thrown(e, what, n): e.oblige(bad if what == "throw" else FALSE, "post", "only a negative prescan or a non-positive overscan start is rejected", n)
        ex.on_throw = thrown
        call(ex, cls, cls, ref, args)
        with at(ex, "%s::%s" % (cls, cls)):
            o = ex.load(ref)
            ex.oblige(NOT(bad), "post", "a negative prescan or a non-positive overscan start is rejected")
            ob = lambda f, t: ex.oblige(f, "post", t)
            equal(ex, o.f["dwell_times"], dw, "post", "dwell times are the given ones")
            ob(eq(o.f["prescan_offset"], pre), "prescan offset"); ob(eq(o.f["overscan_start"], over), "overscan start")
            for n in FLAGS: equal(ex, o.f[n], b[n], "post", n)
            ob(eq(o.f["n_steps"], S), "one step for each dwell time")
            ob(eq(o.f["type"], {"ROE": 0, "ROEChargeInjection": 1, "ROETrapPumping": 2}[cls]), "type")
            if cls == "ROETrapPumping":
                ob(eq(o.f["n_phases"], I("pairs")), "half as many phases as steps"); ob(eq(o.f["n_pumps"], pumps), "number of pumps")
            else:
                ob(eq(o.f["n_phases"], S), "as many phases as steps"); ob(eq(o.f["n_pumps"], 0), "no pumps")
            ex.oblige(TRUE if ex.same(ex.load(d), dw) else FALSE, "frame", "the given dwell times are not changed")
    return go


# ------------------------------------------------------------------ P13: clock sequences
PHASE = ("is_high", "capture_from_which_pixels", "release_to_which_pixels", "release_fraction_to_pixels", "n_capture_pixels", "n_release_pixels")


def known(name, s, p):
    """a cell of the sequence already shown to be as specified: nothing else is known about it"""
    a = lambda n: fun_arr(lambda i: app(name + n, [s, p, i]), app(name + n + "#", [s, p], "I"))
    return Obj("ROEStepPhase", {"is_high": bapp(name + "high", [s, p]), "capture_from_which_pixels": a("cap"), "release_to_which_pixels": a("rel"),
                                "release_fraction_to_pixels": a("frac"), "n_capture_pixels": app(name + "nc", [s, p], "I"),
                                "n_release_pixels": app(name + "nr", [s, p], "I")})


def is_known(ex, cell, name, s, p):
    """every part of the cell is the part of the known cell (s, p)"""
    if not isinstance(cell, Obj): return False
    w = known(name, s, p)
    for f in PHASE:
        x, y = cell.f.get(f), w.f[f]
        if isinstance(y, Arr):
            if not isinstance(x, Arr) or not ex.env.prove(eq(x.length, y.length), 1): return False
            i = fresh("i", "I")
            x, y = ex.read(x, (i,)), ex.read(y, (i,))
        if isinstance(y, Form):
            if not isinstance(x, Form) or not ex.env.prove(IFF(x, y), 1): return False
        elif not isinstance(x, Poly) or not ex.env.prove(eq(x, y), 1): return False
    return True


def cell_contract(ex, cell, s, p, n, single, force):
    ob = lambda f, t: ex.oblige(f, "post", t)
    if not isinstance(cell, Obj): raise Unsupported("element of the clock sequence")
    if single: h = s
    elif ex.branch(le(s, n)): h = ZERO if ex.branch(eq(s, n)) else s
    else: h = 2 * n - s
    ob(IFF(cell.f["is_high"], eq(p, h)), "exactly one phase is high in each step")
    cap, rel, fr = (cell.f[f] for f in PHASE[1:4])
    ob(eq(cell.f["n_capture_pixels"], cap.length), "number of pixels to capture from")
    ob(AND(eq(cell.f["n_release_pixels"], rel.length), eq(fr.length, rel.length)), "number of pixels to release to")
    high = ex.branch(eq(p, h))
    ob(eq(cap.length, 1 if high else 0), "a high phase captures from one pixel" if high else "a low phase captures from none")
    total = ex.arr_sum(fr) if not fr.length.is_const() else sum((ex.read(fr, (P(i),)) for i in range(int(fr.length.const()))), ZERO)
    ob(eq(total, 1), "released fractions sum to one")

    def target(i):
        x = ex.read(rel, (i,))
        ob(AND(le(-1, x), le(x, 1)), "released at most one pixel away")
        if single: ob(OR(NOT(force), ge(x, 0)), "forced release is never towards readout")
    each(ex, rel.length, target)


def clock(cls, single):
    def go(ex):
        o = electronics(ex, "e", cls)
        n, S, force = o.f["n_phases"], o.f["n_steps"], o.f["force_release_away_from_readout"]
        ex.env.assume(ge(n, 1)); ex.env.assume(eq(S, n if single else 2 * n))
        if not single: ex.env.assume(NOT(force))
        if not isinstance(o.f.get("clock_sequence"), Arr): o = o.set("clock_sequence", ex.default_value("valarray<valarray<ROEStepPhase> >"))
        ref = put(ex, "electronics", o)
        st = {}

        def seq(entry):
            hits = [(r, v) for r, v in entry.values() if r.path == (("f", "clock_sequence"),)]
            if len(hits) != 1: raise Unsupported("loop over steps")
            return hits[0]

        def outer_at(ex, k, entry):
            r, v = seq(entry)
            if k is ZERO: return {r: v}
            st["k"] = k
            if not isinstance(v, Arr) or v.W is not None: raise Unsupported("clock sequence")
            ex.oblige(eq(v.length, S), "post", "one row for each step")
            return {r: v.with_layer(lt(from_atom(v.R), k), fun_arr(lambda c, R=from_atom(v.R): known("S", R, c), n))}

        def outer_after(ex, k, entry):
            r, v = seq(entry)
            row = ex.read(ex.load(r), (k,))
            if not isinstance(row, Arr): raise Unsupported("row of the clock sequence")
            ex.oblige(eq(row.length, n), "post", "one cell for each phase")

            def cell(p):
                c = ex.read(row, (p,))
                if not is_known(ex, c, "P", k, p): cell_contract(ex, c, k, p, n, single, force)
            each(ex, n, cell, "phase")
            others(ex, r, k)
            return {}

        def others(ex, r, k):
            def cell(s):
                row = ex.read(ex.load(r), (s,))
                p = pick(ex, n, "phase")
                if not ex.env.prove(eq(row.length, n), 2) or not is_known(ex, ex.read(row, (p,)), "S", s, p): raise Unsupported("an earlier step is changed")
            each(ex, k, cell, "step")

        def inner_at(ex, k, entry):
            if k is ZERO: return {r: v for r, v in [seq(entry)]}
            r, v = seq(entry)
            row = ex.read(v, (st["k"],))
            ex.oblige(eq(row.length, n), "post", "one cell for each phase")
            return {r: v.with_layer(eq(from_atom(v.R), st["k"]), row.with_layer(lt(from_atom(row.R), k), known("P", st["k"], from_atom(row.R))))}

        def inner_after(ex, k, entry):
            r, v = seq(entry)
            row = ex.read(ex.load(r), (st["k"],))
            ex.oblige(eq(row.length, n), "post", "one cell for each phase")
            old = ex.read(ex.read(v, (st["k"],)), (k,))
            c = ex.read(row, (k,))
            if ex.same(c, old): raise Unsupported("the loop over phases does not set one phase after the other")
            cell_contract(ex, c, st["k"], k, n, single, force)

            def earlier(q):
                if not is_known(ex, ex.read(row, (q,)), "P", st["k"], q): raise Unsupported("an earlier phase is changed")
            each(ex, k, earlier, "phase")
            others(ex, r, st["k"])
            return {}

        ex.invariants = {"steps": ByInvariant("ROE::set_clock_sequence", outer_at, outer_after, lambda ex, k: le(k, S)),
                         "phases": ByInvariant("ROE::set_clock_sequence", inner_at, inner_after, lambda ex, k: le(k, n), nested=True)}
        call(ex, cls, "set_clock_sequence", ref, [])
        with at(ex, "ROE::set_clock_sequence"):
            v = ex.load(ref).f["clock_sequence"]
            ex.oblige(eq(v.length, S), "post", "one row for each step")
            s = pick(ex, S, "step"); p = pick(ex, n, "phase")
            row = ex.read(v, (s,))
            ex.oblige(eq(row.length, n), "post", "one cell for each phase")
            ex.oblige(TRUE if is_known(ex, ex.read(row, (p,)), "S", s, p) else FALSE, "post", "every step and phase is set")
            for f in o.f:
                if f != "clock_sequence": equal(ex, ex.load(ref).f[f], o.f[f], "frame", "%s is kept" % f)
    return go


# ------------------------------------------------------------------ P12: where trap states are saved
def with_matrix(ex, o):
    """n_express_passes rows of n transfers each, no multiplier negative (P09-P11)"""
    n, E = I("n_transfers"), I("n_passes")
    ex.env.assume(AND(ge(n, 1), ge(E, 1)))
    r, c = idxvars(True)
    ex.env.ax["em"] = lambda a: [ge(app("em", list(a)), 0)]
    o = o.set("n_express_passes", E)
    return o.set("express_matrix", Arr(E * n, n, r, c, [(TRUE, app("em", [from_atom(r), from_atom(c)]))])), n, E


def matrix(v, n, ex):
    if not isinstance(v, Arr): raise Unsupported("matrix")
    return v if v.W is not None else ex.to2d(v, n)


def save_states(ex):
    o, n, E = with_matrix(ex, electronics(ex, "e"))
    ref = put(ex, "electronics", o)
    em = lambda r, c: app("em", [r, c])
    st = lambda r, c: bapp("SAVED", [r, c])

    def saved(entry):
        hits = [(r, v) for r, v in entry.values() if r.path == (("f", "store_trap_states_matrix"),)]
        if len(hits) != 1: raise Unsupported("loop over passes")
        return hits[0]

    def passes(ex, k, entry):
        r, v = saved(entry)
        if k is ZERO: return {r: v}
        ex.oblige(eq(v.length, E * n), "post", "one flag for each multiplier")
        v = matrix(v, n, ex)
        return {r: v.with_layer(lt(from_atom(v.R), k), st(from_atom(v.R), from_atom(v.C)))}

    def after(ex, k, entry):
        r, v0 = saved(entry)
        v = matrix(ex.load(r), n, ex)

        def row(c):
            if ex.branch(flag(ex, v, k, c)):
                ex.oblige(OR(eq(c, n - 1), gt(em(k + 1, c + 1), 0)), "post", "the next pass starts just behind the saved row")
                each(ex, c, lambda q: ex.oblige(le(em(k + 1, q + 1), 0), "post", "the next pass starts no earlier than behind the saved row"), "earlier")
            else: ex.oblige(first_elsewhere(ex, k, c), "post", "the state is saved before the next pass starts")
        each(ex, n, row, "row")

        def other(i):
            if ex.branch(eq(i, k)): return
            j = pick(ex, n, "row")
            y = flag(ex, v, i, j)
            if ex.branch(lt(i, k)):
                if not ex.env.prove(IFF(y, st(i, j)), 2): raise Unsupported("flags of an earlier pass are changed")
            elif not ex.env.prove(NOT(y), 2): raise Unsupported("flags of a later pass are set")
        each(ex, E, other, "pass")
        return {}

    def first_elsewhere(ex, k, c):
        """c is not where the next pass starts: a multiplier behind an earlier row, or none behind this one"""
        alts = [AND(lt(c, n - 1), le(em(k + 1, c + 1), 0))]
        for j in ex.exitsyms: alts.append(AND(le(0, j), lt(j, c), gt(em(k + 1, j + 1), 0)))
        return OR(*alts)

    ex.invariants = {"passes": ByInvariant("ROE::set_store_trap_states_matrix", passes, after, lambda ex, k: le(k, E - 1))}
    call(ex, "ROE", "set_store_trap_states_matrix", ref, [])
    with at(ex, "ROE::set_store_trap_states_matrix"):
        new = ex.load(ref)
        v = new.f["store_trap_states_matrix"]
        ex.oblige(eq(v.length, E * n), "post", "one flag for each multiplier")
        v = matrix(v, n, ex)
        i = pick(ex, E, "pass"); j = pick(ex, n, "row")
        y = flag(ex, v, i, j)
        if ex.branch(o.f["empty_traps_for_first_transfers"]): ex.oblige(NOT(y), "post", "nothing is saved when traps start empty for first transfers")
        elif ex.branch(lt(i, E - 1)): ex.oblige(IFF(y, st(i, j)), "post", "every pass but the last saves the state")
        else: ex.oblige(NOT(y), "post", "the last pass saves nothing")
        for f in o.f:
            if f != "store_trap_states_matrix": equal(ex, new.f[f], o.f[f], "frame", "%s is kept" % f)


def flag(ex, v, r, c):
    x = ex.read(v, (r, c))
    return x if isinstance(x, Form) else NOT(eq(x, 0))


# ------------------------------------------------------------------ P10: charge injection
def least(a, b): return ite(le(a, b), a, b)


def injection(ex):
    axioms(ex)
    cls = "ROEChargeInjection"
    o = electronics(ex, "e", cls)
    n, given, window = I("n_rows"), I("express"), I("window_offset")
    pre, over, whole = o.f["prescan_offset"], o.f["overscan_start"], o.f["use_integer_express_matrix"]
    ex.env.assume(AND(ge(n, 1), ge(given, 0), ge(window, 0), ge(pre, 0)))
    ex.env.assume(OR(eq(over, -1), ge(over, 1)))
    T = pre + over - 1 if ex.branch(ge(over, 1)) else pre + window + n
    if ex.branch(eq(given, 0)): E = T
    else: E = given if ex.branch(le(given, T)) else T
    q = ex.quot(T, E) if ex.branch(gt(E, 0)) else ZERO
    most = q if q.is_const() else app("ceil", [q], "I")
    m = most if ex.branch(whole) else q
    ref = put(ex, "electronics", o)
    fn = cls + "::set_express_matrix_from_rows_and_express"
    hist = {}

    def reduced(ex, k, entry):
        hits = [(r, v) for r, v in entry.values() if isinstance(v, Arr) and not r.path and ex.env.prove(eq(v.length, E * n), 2)]
        if len(hits) != 1: raise Unsupported("loop that reduces the multipliers")
        r, v = hits[0]
        if k is ZERO: return {r: v}
        hist["k"] = k
        v = matrix(v, n, ex)
        R = from_atom(v.R)
        rest = T - R * m
        return {r: v.with_layer(le(E - k, R), ite(ge(rest, 0), rest, ZERO))}

    def bound(ex, k):
        return AND(le(k, E), OR(eq(k, 0), gt((E - k + 1) * m, T)))

    ex.invariants = {"reduce": ByInvariant(fn, reduced, None, bound)}
    call(ex, cls, "set_express_matrix_from_rows_and_express", ref, [n, given, window])
    with at(ex, fn):
        new = ex.load(ref)
        ex.oblige(eq(new.f["n_express_passes"], E), "post", "number of passes")
        v = new.f["express_matrix"]
        ex.oblige(eq(v.length, E * n), "post", "one multiplier for each pass and row")
        v = matrix(v, n, ex)
        for f in o.f:
            if f not in ("express_matrix", "n_express_passes"): equal(ex, new.f[f], o.f[f], "frame", "%s is kept" % f)
        if not ex.branch(gt(E, 0)): return
        c = pick(ex, n, "row")
        U = lambda r: least(r * m, T)

        def sides(r):
            e = E - hist["k"] if hist.get("k") is not None else E
            ex.env.assume(IMP(eq(q, m), eq(E * q, E * m)))
            cancel(ex, E, q, app("idiv", [T, E], "I"))
            both(ex, (m, E), (m, r), (m, E - 1 - r), (m, e - 1 - r), (m, r - e))

        def entry(r):
            x = ex.read(v, (r, c))
            ex.oblige(AND(ge(x, 0), le(x, most)), "post", "multipliers between zero and the transfers divided by the passes, rounded up")
            return x
        telescopes(ex, E, entry, U, T, "the multipliers of a pixel add up to its transfers", sides)


# ------------------------------------------------------------------ P09: standard readout
def series(ex, this, vals):
    """arange by contract (P20): start + k step for exactly the k for which that is below stop"""
    a, b, s = vals
    if s is None: s = ONE               # the declared default
    if not ex.env.prove(gt(s, 0), 2): raise Unsupported("arange with a step that may not be positive")
    if s.is_const() and s.const() == 1 and a.sort == "I" and b.sort == "I" and ex.env.prove(le(a, b), 2): n = b - a
    else:
        n = fresh("arange#", "I")
        ex.env.assume(AND(ge(n, 0), IMP(ge(n, 1), lt(a + (n - 1) * s, b)), ge(a + n * s, b)))
    return fun_arr(lambda k: a + k * s, n)


def standard(mode):
    """mode: "plain" (traps not emptied for first transfers), "every" (emptied, every transfer computed),
    "first" (emptied, the first transfer of each pixel apart)"""
    def go(ex):
        axioms(ex)
        ex.contracts = dict(ex.contracts or {}, arange=series)
        o = electronics(ex, "e", "ROE")
        n, given, window = I("n_image_rows"), I("express"), I("window_offset")
        pre, over, whole, empty = (o.f[f] for f in ("prescan_offset", "overscan_start", "use_integer_express_matrix", "empty_traps_for_first_transfers"))
        ex.env.assume(AND(ge(n, 1), ge(given, 0), ge(window, 0), ge(pre, 0)))
        ex.env.assume(OR(eq(over, -1), ge(over, 1)))
        ex.env.assume(NOT(empty) if mode == "plain" else empty)
        if ex.branch(eq(window + pre, 0)):
            window = pre = off = ZERO
            o = o.set("prescan_offset", ZERO)
            N = n
        else:
            off, N = I("offset"), I("n_transfers")
            ex.abbreviate((window + pre, off), (n + off, N), (n + window + pre, N), (N - off, n))
        if mode == "first":
            N1 = I("n_later_transfers")
            ex.abbreviate((N - 1, N1), (N1 + 1, N))
        if mode == "every": ex.env.assume(OR(eq(given, 0), ge(given, N)))
        if mode == "first": ex.env.assume(AND(gt(given, 0), lt(given, N)))
        if ex.branch(eq(given, 0)): E = N
        else: E = given if ex.branch(le(given, N)) else N
        L = N1 if mode == "first" else N            # transfers shared between the passes
        q, most = ex.quot(L, E), ONE
        if not q.is_const():
            ratio, most = Rv("ratio"), I("whole_ratio")
            ex.abbreviate((q, ratio), (app("ceil", [ratio], "I"), most))
            ex.env.assume(eq(E * q, L)); ex.env.assume(AND(le(E * ratio, L), ge(E * ratio, L)))
            ex.env.assume(AND(le(ratio, most), lt(most, ratio + 1)))
            q = ratio
        m = most if ex.branch(whole) else q
        rows = N if mode == "first" else E
        O = lambda R: app("O", [R], "I")                # least whole number with O(R) m >= L - R
        if mode == "first":
            def ax_O(a):
                b = O(a[0])
                out = [ge(b * m, L - a[0]), lt((b - 1) * m, L - a[0])]
                k = hist.get("old")
                if k is not None: out += [nn(k - b, m), nn(b - 1 - k, m), nn(k - 1 - b, m), nn(b - 2 - k, m)]
                return out
            ex.env.ax["O"] = ax_O
            ex.env.pair["O"] = lambda x, y: [f for a, b in ((O(*x), O(*y)), (O(*y), O(*x))) for f in (nn(b - 1 - a, m), nn(a - 2 - b, m))]

        def U(e, C):
            """multipliers of the first e passes for the pixel C (counted from the readout register) added up"""
            if mode == "plain": return least(C + 1, e * m)
            if mode == "every": return C + 1 - least(C + 1, (E - e) * m)
            return ite(ge(e + C, N), ONE, ZERO) + C - least(C, O(e - 1) * m)
        total = lambda c: c + off + 1
        bound = m + 1 if mode == "first" else m
        excess = lambda c: c + window + 2 - over        # transfers beyond the overscan start
        fn = "ROE::set_express_matrix_from_rows_and_express"
        u = lambda e, c: app("u", [e, c])               # the same sums, of which only what is shown below is known
        S = lambda e, c: total(c) - u(e, c)
        kept = lambda e, c: most_of(S(e, c) - excess(c), ZERO)
        hist = {}

        def hints(r, c):
            C = c + off
            if mode != "first":
                ex.env.assume(IMP(eq(q, m), eq(E * q, E * m)))
                both(ex, (m, E), (m, r), (m, E - 1 - r), (m - q, E))
                if mode == "every": cancel(ex, E, q, ONE)
            else:
                a, b = O(r - 1), O(r)
                both(ex, (1 - q, E), (m - q, E), (b - 1 - a, m), (a - 2 - b, m), (E - a, m), (E - b, m), (m, a), (m, b))
                cancel(ex, E, q, ONE)

        def opaque():
            """what is used of the multipliers before the overscan is taken away"""
            c = pick(ex, n, "row")
            hints(rows, c)
            ex.oblige(eq(U(ZERO, c + off), 0), "inv", "multipliers of no pass")
            ex.oblige(eq(U(rows, c + off), total(c)), "inv", "multipliers of all passes")

            def one(r):
                hints(r, c)
                x = U(r + 1, c + off) - U(r, c + off)
                ex.oblige(AND(ge(x, 0), le(x, bound)), "inv", "multipliers are not negative and bounded")
            each(ex, rows, one, "pass")

        def field(entry):
            hits = [(r, v) for r, v in entry.values() if r.path == (("f", "express_matrix"),)]
            if len(hits) != 1: raise Unsupported("loop over the overscan")
            return hits[0]

        def column(ex, k, entry):
            r, v = field(entry)
            if not ex.env.prove(eq(v.length, rows * n), 2): raise Unsupported("size of the matrix")
            R, C = idxvars(True)
            a, b = from_atom(R), from_atom(C)
            if k is ZERO:
                hints(a, b)
                return {r: Arr(rows * n, n, R, C, [(TRUE, U(a + 1, b + off) - U(a, b + off))])}
            hist["k"] = k
            return {r: before(k, R, C)}

        def before(k, R, C):
            a, b = from_atom(R), from_atom(C)
            return Arr(rows * n, n, R, C, [(TRUE, u(a + 1, b) - u(a, b)), (ge(b, n - k), kept(a, b) - kept(a + 1, b))])

        def passes(ex, j, entry):
            r, v = field(entry)
            c = n - 1 - hist["k"]
            zero = [r2 for key, (r2, w) in entry.items() if key not in ex.inv_counters and isinstance(w, Poly) and w.is_const() and w.const() == 0]
            if len(zero) != 1: raise Unsupported("loop over the overscan")
            R, C = idxvars(True)
            w = before(hist["k"], R, C)
            a, b = from_atom(R), from_atom(C)
            return {r: w.with_layer(AND(eq(b, c), ge(a, rows - j)), kept(a, c)), zero[0]: S(rows - j, c)}

        def inside(ex, j):
            c = n - 1 - hist["k"]
            return AND(le(j, rows), OR(eq(j, 0), lt(S(rows - j + 1, c), excess(c))))

        def over_loop(ex, node):
            from invariant import Mods
            md = Mods(ex); md.scan(node)
            return "express_matrix" in md.fields and contains_loop(node)
        ex.env.ax["u"] = lambda a: [IMP(eq(a[0], 0), eq(u(*a), 0)), IMP(eq(a[0], rows), eq(u(*a), total(a[1]))), ge(u(*a), 0), le(u(*a), total(a[1]))]
        def pair_u(x, y):
            same = eq(x[1], y[1])
            return [IMP(AND(same, le(x[0], y[0])), le(u(*x), u(*y))), IMP(AND(same, le(y[0], x[0])), le(u(*y), u(*x))),
                    IMP(AND(same, eq(y[0], x[0] + 1)), le(u(*y) - u(*x), bound)), IMP(AND(same, eq(x[0], y[0] + 1)), le(u(*x) - u(*y), bound))]
        ex.env.pair["u"] = pair_u
        def counted(arr):
            """how many rows of old pass k have transfers left"""
            k = hist.get("old")
            if k is None: return None
            f = app("floor", [k * m], "I") if m.sort == "R" else k * m
            ex.branch(le(f, L))
            return lambda r: most_of(r - f, ZERO)

        def insert(ex, k, entry):
            """the first k of the later passes are in place"""
            hits = [(r, v) for r, v in entry.values() if isinstance(v, Arr) and not r.path and v.length is N * N]
            if len(hits) != 1: raise Unsupported("loop over the later passes")
            hist["old"] = k
            if k is not ZERO:
                both(ex, (k, m), (1 - q, E), (m - q, E))
                cancel(ex, E, q, ONE)
                ex.sum_rules = (counted,)
            R, C = idxvars(True)
            a, b = from_atom(R), from_atom(C)
            t = lambda x: least(b, least(k, x) * m)
            return {hits[0][0]: Arr(N * N, N, R, C, [(TRUE, ite(eq(a + b, N - 1), ONE, ZERO) + t(O(a - 1)) - t(O(a)))])}

        def inserted(ex, k, entry):
            """old pass k is in place as well"""
            hits = [r for r, v in entry.values() if isinstance(v, Arr) and not r.path and v.length is N * N]
            v = matrix(ex.load(hits[0]), N, ex)
            want = insert(ex, k + 1, entry)[hits[0]]
            hist["old"] = k

            def element(a):
                f = app("floor", [k * m], "I") if m.sort == "R" else k * m
                b = pick(ex, N, "row")
                here = ex.branch(eq(a, most_of(L - f, ZERO)))
                ahead, behind = le(O(a), k), ge(O(a - 1), k + 1)        # pass a takes old pass k: both
                if ex.branch(lt(k * m, L)) and here: ex.oblige(AND(eq(O(a), k), eq(O(a - 1), k + 1)), "inv", "where a later pass goes")
                elif not here: ex.oblige(NOT(AND(ahead, behind)), "inv", "where a later pass goes")
                ex.branch(ahead); ex.branch(behind)
                ex.branch(eq(a + b, N - 1))
                ex.branch(le(b, k * m)); ex.branch(le(b, k * m + m))
                done = lambda: eq(ex.simp(ex.read(v, (a, b))), ex.simp(ex.read(want, (a, b))))
                if not ex.env.prove(done(), 2):
                    for x in (O(a), O(a - 1)):
                        if not ex.branch(lt(x, k)) and not ex.branch(lt(k, x)): ex.branch(eq(x, k))
                ex.oblige(done(), "inv", "the later passes done so far are in place")
            each(ex, N, element, "pass")
            return {}

        def insert_loop(ex, node):
            from invariant import Mods
            md = Mods(ex); md.scan(node)
            return mode == "first" and "express_matrix" not in md.fields and contains_loop(node)
        ex.invariants = {"later passes": ByInvariant(fn, insert, inserted, lambda ex, k: le(k, E), insert_loop), "overscan": ByInvariant(fn, column, None, lambda ex, k: le(k, n), over_loop),
                         "passes": ByInvariant(fn, passes, None, inside, lambda ex, node: hist.get("k") is not None, nested=True)}
        if ex.choose(2) == 0:
            with at(ex, fn): opaque()
            return
        ref = put(ex, "electronics", o)
        call(ex, "ROE", "set_express_matrix_from_rows_and_express", ref, [n, given, window])
        with at(ex, fn):
            new = ex.load(ref)
            ex.oblige(eq(new.f["n_express_passes"], rows), "post", "number of passes")
            v = new.f["express_matrix"]
            ex.oblige(eq(v.length, rows * n), "post", "one multiplier for each pass and row")
            v = matrix(v, n, ex)
            for f in o.f:
                if f not in ("express_matrix", "n_express_passes"): equal(ex, new.f[f], o.f[f], "frame", "%s is kept" % f)
            c = pick(ex, n, "row")
            trimmed = hist.get("k") is not None
            beyond = AND(ge(over, 1), gt(excess(c), 0))
            if ex.branch(beyond):
                if not trimmed: raise Unsupported("overscan without a loop over it")
                sums, all_ = (lambda e: total(c) - excess(c) - kept(e, c)), total(c) - excess(c)
            else:
                sums, all_ = (lambda e: u(e, c)) if trimmed else (lambda e: U(e, c + off)), total(c)

            def entry(r):
                x = ex.read(v, (r, c))
                ex.oblige(AND(ge(x, 0), le(x, bound)), "post", "multipliers between zero and the transfers divided by the passes")
                return x
            if mode == "first" and not trimmed and ex.branch(eq(over, -1)):
                V = lambda r: ite(ge(r + c + off, N), ONE, ZERO) + E - least(E, O(r - 1))
                hints(rows, c)
                ex.oblige(AND(ge(V(ZERO), 0), le(V(rows), E + 1)), "post", "at most express + 1 passes have a multiplier")

                def counts(r):
                    hints(r, c)
                    ex.oblige(le(ite(eq(entry(r), 0), ZERO, ONE), V(r + 1) - V(r)), "post", "at most express + 1 passes have a multiplier (one more)")
                each(ex, rows, counts, "pass")
            telescopes(ex, rows, entry, sums, all_, "the multipliers of a pixel add up to its transfers", lambda r: hints(r, c))
    return go


def nn(a, b): return IMP(AND(ge(a, 0), ge(b, 0)), ge(P(a) * P(b), 0))
# ------------------------------------------------------------------ P11: trap pumping
def pumping(ex):
    axioms(ex)
    cls, fn = "ROETrapPumping", "ROETrapPumping::set_express_matrix_from_rows_and_express"
    o = electronics(ex, "e", cls)
    o = o.set("prescan_offset", ZERO).set("overscan_start", P(-1))         # as constructed (P26)
    n, given, pumps = I("n_image_rows"), I("express"), I("n_pumps")
    empty = o.f["empty_traps_for_first_transfers"]
    o = o.set("n_pumps", pumps)
    ex.env.assume(AND(ge(n, 1), ge(given, 0), ge(pumps, 1)))
    if ex.branch(eq(given, 0)): E = pumps
    else: E = given if ex.branch(le(given, pumps)) else pumps
    first = ex.branch(AND(empty, lt(E, pumps)))
    u = lambda e, c: app("u", [e, c])
    cv = lambda e, c: app("v", [e, c], "I")
    hist = {}

    def readout(ex, this, vals):
        """ROE::set_express_matrix_from_rows_and_express by contract (P09), without prescan, overscan or window"""
        N, e, w = vals
        ex.oblige(AND(ge(N, 1), ge(e, 0)), "pre", "rows and express of the standard express matrix")
        ob = ex.load(this)
        if w is not ZERO or ob.f["prescan_offset"] is not ZERO or N is not pumps or not ex.env.prove(AND(eq(e, E), ge(e, 1), le(e, N)), 2):
            raise Unsupported("standard express matrix for other than the pumps")
        rows = N if first else E
        bound = ex.quot(N - 1 if first else N, E) + (2 if first else 1)    # rounded up or not
        r, c = idxvars(True)
        a, b = from_atom(r), from_atom(c)
        ex.env.ax["u"] = lambda t: [IMP(eq(t[0], 0), eq(u(*t), 0)), IMP(eq(t[0], rows), eq(u(*t), t[1] + 1))]

        def pair_u(x, y):
            if x[1] is not y[1]: return []
            return [IMP(le(p[0], q[0]), le(u(*p), u(*q))) for p, q in ((x, y), (y, x))] + \
                   [IMP(eq(q[0], p[0] + 1), le(u(*q) - u(*p), bound)) for p, q in ((x, y), (y, x))]
        ex.env.pair["u"] = pair_u
        if first:         # at most E + 1 passes have a multiplier that is not zero
            ex.env.ax["v"] = lambda t: [IMP(eq(t[0], 0), ge(cv(*t), 0)), IMP(eq(t[0], rows), le(cv(*t), E + 1))]
            ex.env.pair["v"] = lambda x, y: [IMP(eq(q[0], p[0] + 1), ge(cv(*q), cv(*p) + ite(eq(u(*q), u(*p)), ZERO, ONE))) for p, q in ((x, y), (y, x))] if x[1] is y[1] else []
        ob = ob.set("express_matrix", Arr(rows * N, N, r, c, [(TRUE, u(a + 1, b) - u(a, b))])).set("n_express_passes", rows)
        ex.storeto(this, ob)
        hist["rows"] = rows
        return None
    ex.contracts = dict(ex.contracts or {})
    ex.contracts["ROE::set_express_matrix_from_rows_and_express"] = readout
    ref = put(ex, "electronics", o)
    w = lambda i: app("w", [i])

    def counted(e, sel):
        """the selected multipliers: no more than express + 1, and they add up to all of them"""
        v, x, under, cnt, at_, m = sel
        rows, c = hist["rows"], pumps - 1
        e.env.ax["w"] = lambda a: [IMP(eq(a[0], 0), eq(w(a[0]), 0))]
        e.env.pair["w"] = lambda p, q: [IMP(AND(le(0, i), lt(i, m), eq(j, i + 1)), eq(w(j), w(i) + x(at_(i)))) for i, j in ((p[0], q[0]), (q[0], p[0]))]
        e.oblige(eq(v.length, rows), "inv", "one multiplier for each pass is selected from")
        e.oblige(le(cnt(ZERO), cv(ZERO, c)), "inv", "multipliers selected so far (none)")
        e.oblige(eq(u(ZERO, c), w(cnt(ZERO))), "inv", "multipliers selected so far add up (none)")

        def step(r):
            if e.branch(under(r)):
                e.oblige(AND(eq(at_(cnt(r)), r), lt(cnt(r), m), eq(cnt(r + 1), cnt(r) + 1)), "inv", "the selected multiplier")
                e.oblige(eq(x(at_(cnt(r))), x(r)), "inv", "the selected multiplier's value")
                e.oblige(eq(w(cnt(r + 1)), w(cnt(r)) + x(at_(cnt(r)))), "inv", "the selected multiplier is added")
                e.oblige(eq(x(r), u(r + 1, c) - u(r, c)), "inv", "the selected multiplier is one of the last pixel's")
            else: e.oblige(eq(cnt(r + 1), cnt(r)), "inv", "no multiplier is selected")
            e.oblige(IMP(le(cnt(r), cv(r, c)), le(cnt(r + 1), cv(r + 1, c))), "inv", "multipliers selected so far (one more)")
            e.oblige(IMP(eq(u(r, c), w(cnt(r))), eq(u(r + 1, c), w(cnt(r + 1)))), "inv", "multipliers selected so far add up (one more)")
        each(e, rows, step, "pass")
        e.env.assume(AND(le(cnt(rows), cv(rows, c)), eq(u(rows, c), w(cnt(rows)))))      # the conclusion of the induction
        e.env.assume(AND(le(m, E + 1), eq(w(m), pumps)))
    ex.on_selection = counted
    call(ex, cls, "set_express_matrix_from_rows_and_express", ref, [n, given, ZERO])
    with at(ex, fn):
        new = ex.load(ref)
        rows = new.f["n_express_passes"]
        ex.oblige(eq(rows, E + 1 if first else E), "post", "number of passes")
        v = new.f["express_matrix"]
        ex.oblige(eq(v.length, rows * n), "post", "one multiplier for each pass and row")
        v = matrix(v, n, ex)
        for f in o.f:
            if f not in ("express_matrix", "n_express_passes"): equal(ex, new.f[f], o.f[f], "frame", "%s is kept" % f)
        c, d = pick(ex, n, "row"), pick(ex, n, "other row")

        def entry(r):
            x = ex.read(v, (r, c))
            ex.oblige(ge(x, 0), "post", "no multiplier is negative")
            ex.oblige(eq(x, ex.read(v, (r, d))), "post", "all rows have the same multipliers")
            return x
        if first:
            m = ex.selections[-1][5]
            sums = lambda i: ite(le(i, m), w(i), w(m))
        else: sums = lambda i: u(i, pumps - 1)
        telescopes(ex, rows, entry, sums, pumps, "the multipliers of a pixel add up to the pumps")


def pumping_saves(ex):
    o, n, E = with_matrix(ex, electronics(ex, "e", "ROETrapPumping"))
    ref = put(ex, "electronics", o)
    call(ex, "ROETrapPumping", "set_store_trap_states_matrix", ref, [])
    with at(ex, "ROETrapPumping::set_store_trap_states_matrix"):
        new = ex.load(ref)
        v = new.f["store_trap_states_matrix"]
        ex.oblige(eq(v.length, E * n), "post", "one flag for each multiplier")
        v = matrix(v, n, ex)

        def row(i):
            j = pick(ex, n, "row")
            y = flag(ex, v, i, j)
            if ex.branch(eq(i, E - 1)): ex.oblige(NOT(y), "post", "the last pass saves nothing")
            else: ex.oblige(IFF(y, ne(app("em", [i, j]), 0)), "post", "every other pass saves the state where it is effective")
        each(ex, E, row, "pass")
        for f in o.f:
            if f != "store_trap_states_matrix": equal(ex, new.f[f], o.f[f], "frame", "%s is kept" % f)


def most_of(a, b): return ite(ge(a, b), a, b)


def contains_loop(n):
    from invariant import children
    body = children(n)[-1]
    def has(x): return x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") or any(has(c) for c in children(x))
    return has(body)


def injection_saves(ex):
    o, n, E = with_matrix(ex, electronics(ex, "e", "ROEChargeInjection"))
    ref = put(ex, "electronics", o)
    call(ex, "ROEChargeInjection", "set_store_trap_states_matrix", ref, [])
    with at(ex, "ROEChargeInjection::set_store_trap_states_matrix"):
        new = ex.load(ref)
        v = new.f["store_trap_states_matrix"]
        ex.oblige(eq(v.length, E * n), "post", "one flag for each multiplier")
        each(ex, E, lambda i: each(ex, n, lambda j: ex.oblige(NOT(flag(ex, matrix(v, n, ex), i, j)), "post", "no trap state is saved"), "row"), "pass")
        for f in o.f:
            if f != "store_trap_states_matrix": equal(ex, new.f[f], o.f[f], "frame", "%s is kept" % f)
