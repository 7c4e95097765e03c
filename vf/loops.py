"""Loop summaries: one generic iteration -> closed form for every iteration."""
from terms import *
import terms as TT
from values import *

_pc = [0]


class Mod:
    """a modified location: ref + entry value + placeholder"""
    def __init__(self, ref, v0):
        self.ref, self.v0 = ref, v0
        self.ph = None
        self.grow = None   # placeholder of the length of an array that grows in the loop
        self.sort = None
        self.names = {}    # array placeholder app name -> subpath


def _diff(ex, v0, v1, ref, out):
    if v0 is v1: return
    if isinstance(v0, Obj) and isinstance(v1, Obj) and v0.cls == v1.cls:
        for k in v1.f:
            if k in v0.f: _diff(ex, v0.f[k], v1.f[k], ref.field(k), out)
            elif v1.f[k] is not None: out.append((ref.field(k), None, v1.f[k]))
        return
    if ex.same(v0, v1): return
    out.append((ref, v0, v1))


def diff(ex, S0, S1):
    out = []
    for r, v1 in S1.items():
        if r in S0:
            _diff(ex, S0[r], v1, Ref(r), out)
    return out


def placeholder(ex, v, name, idx, names, path=()):
    """a value of the same shape as v with opaque leaves; idx: list of index terms"""
    mk = var("\u2020", "I")
    if isinstance(v, Form):
        if idx: return bapp("@" + name, [mk] + idx)
        return boolvar("@" + name)
    if isinstance(v, Poly) or v is None:
        srt = names.get(("sort", path), "R")
        if not idx: return var("@" + name, srt)
        nm = "@" + name + "".join("." + str(p) for p in path)
        names[nm] = path
        return app(nm, [mk] + idx, srt)
    if isinstance(v, Obj):
        return Obj(v.cls, {k: placeholder(ex, x, name, idx, names, path + (k,)) for k, x in v.f.items()})
    if isinstance(v, Arr):
        r, c = idxvars(v.W is not None)
        ix = [from_atom(r)] + ([from_atom(c)] if c is not None else [])
        t = v.layers[0][1]
        return Arr(v.length, v.W, r, c, [(TRUE, placeholder(ex, t, name, idx + ix, names, path + ("[]",)))], v.tag)
    if isinstance(v, Vec):
        return Vec([placeholder(ex, x, name, idx, names, path + (i,)) for i, x in enumerate(v.items)])
    return v


def leaf_sorts(v, path, out):
    if isinstance(v, Poly):
        s = v.sort
        out[("sort", path)] = "R" if (s == "R" or out.get(("sort", path)) == "R") else "I"
    elif isinstance(v, Obj):
        for k, x in v.f.items(): leaf_sorts(x, path + (k,), out)
    elif isinstance(v, Arr):
        for c, t in v.layers: leaf_sorts(t, path + ("[]",), out)


def key_of(ref): return (ref.root, ref.path)


class Flat(Exception):
    """a loop over all elements of an array with rows, in order"""
    def __init__(self, ref, rows, W): self.ref, self.rows, self.W = ref, rows, W


def by_rows(ex, node, F, cond_fn, body_fn, inc_fn, par=None):
    """for (i = 0; i < rows * W; i++) S  ==  for (r = 0; r < rows; r++) for (c = 0; c < W; c++) { i = r * W + c; S }"""
    _pc[0] += 1
    r, c = Ref(("flat", _pc[0], "r")), Ref(("flat", _pc[0], "c"))
    ex.storeto(r, ZERO); ex.storeto(c, ZERO)
    outer, ex.flats = ex.flats, ex.flats + (F.W,)

    def element():
        i = ex.load(r) * F.W + ex.load(c)
        ex.storeto(F.ref, i)
        body_fn()
        if ex.alive is not FALSE and ex.load(F.ref) is not i: raise Unsupported("the loop counter changes in the body")

    def row():
        ex.storeto(c, ZERO)
        ex.par = par
        summarise(ex, node, lambda: lt(ex.load(c), F.W), element, lambda: ex.storeto(c, ex.load(c) + 1))
    ex.par = par
    try: summarise(ex, node, lambda: lt(ex.load(r), F.rows), row, lambda: ex.storeto(r, ex.load(r) + 1))
    finally: ex.flats = outer
    for x in (r, c): ex.store.pop(x.root, None)
    ex.storeto(F.ref, F.rows * F.W)


def run_body(ex, S, cond_fn, body_fn, inc_fn, nofork, quiet, pre_assume=None):
    """one generic iteration from store S; returns (cond, final store, alive, exits)"""
    outs0, alive0, gb0, g0 = ex.outs, ex.alive, ex._gb, len(ex.gstack)
    store0 = ex.store
    ex.outs, ex.alive, ex._gb = [], TRUE, g0
    ex.store = dict(S)
    ex.merge += 1
    if nofork: ex.nofork += 1
    if quiet: ex.quiet += 1
    ex.env.push()
    try:
        if pre_assume:
            for f in pre_assume: ex.env.assume(f)
        c = cond_fn()
        ex.env.assume(c)
        body_fn()
        # merge continues
        conts = [o for o in ex.outs if o[1] == "continue"]
        exits = [o for o in ex.outs if o[1] != "continue"]
        alive = ex.alive
        st = ex.store if alive is not FALSE else None
        del ex.gstack[g0:]
        for cc, _, _, s in reversed(conts):
            st = s if st is None else ex.merge_stores(cc, s, st)
        if st is not None:
            ex.store = st
            ex.alive = TRUE
            ex.outs = []
            # (facts assumed after a conditional exit stay valid on this flow)
            inc_fn()
            st = ex.store
    finally:
        ex.env.pop()
        if nofork: ex.nofork -= 1
        if quiet: ex.quiet -= 1
        ex.merge -= 1
        del ex.gstack[g0:]
        ex.outs, ex.alive, ex._gb = outs0, alive0, gb0
        ex.store = store0
    return c, st, exits


def summarise(ex, node, cond_fn, body_fn, inc_fn):
    ex.stats["loops"] += 1
    par, ex.par = ex.par, None
    if ex.seal_after is not None:
        for r in sorted(ex.store, key=str):
            if isinstance(ex.store[r], Arr): ex.store[r] = ex.seal(ex.store[r])
    S0 = dict(ex.store)
    # quick exit: the loop is not entered
    ex.quiet += 1
    S_save = dict(ex.store)
    c0 = cond_fn()
    ex.store = S_save
    ex.quiet -= 1
    if c0 is FALSE or ex.env.decide(c0, 1) is False:
        return
    _pc[0] += 1
    tag = "L%d_" % len(ex.localapps)
    S_first, ex.undecoded = dict(ex.store), None
    mods = {}
    sorts = {}
    fin = None

    def as_rows(m, W):
        """the same array seen as rows"""
        m.v0 = ex.to2d(m.v0, W)
        S0[m.ref.root] = ex.set_path(S0[m.ref.root], m.ref.path, m.v0)
    for it in range(8):
        S = dict(S0)
        for i, (k, m) in enumerate(sorted(mods.items(), key=lambda kv: str(kv[0]))):
            names = dict(sorts.get(k, {}))
            nm = tag + str(i)
            m.ph = placeholder(ex, m.v0, nm, [], names)
            if m.grow:
                m.glen = var("@" + nm + "len", "I")
                m.ph = Arr(m.glen, m.ph.W, m.ph.R, m.ph.C, m.ph.layers, m.ph.tag)
                ex.locals.add(the_atom(m.glen))
            m.names = {q: p for q, p in names.items() if isinstance(q, str)}
            ex.store = S
            ex.storeto(m.ref, m.ph); S = ex.store
            register_local(ex, m)
        ex.store = dict(S0)
        try: c, st, exits = run_body(ex, S, cond_fn, body_fn, inc_fn, True, True)
        except Reshape as e:
            hit = [m for m in mods.values() if isinstance(m.ph, Arr) and m.ph.R is e.arr.R]
            if len(hit) != 1 or hit[0].v0.W is not None: raise
            as_rows(hit[0], e.W)
            continue
        stores = ([st] if st is not None else [])
        new = False
        for s in stores:
            for ref, a, b in diff(ex, S, s):
                k = key_of(ref)
                if k not in mods:
                    mods[k] = Mod(ref, ex.get_path(S0[ref.root], ref.path)); new = True
                    if isinstance(b, Arr) and isinstance(mods[k].v0, Arr) and b.W is not None and mods[k].v0.W is None and b.length is mods[k].v0.length:
                        as_rows(mods[k], b.W)
                    sorts[k] = {}
                    leaf_sorts(mods[k].v0, (), sorts[k]); 
                if isinstance(b, Arr) and isinstance(a, Arr) and b.length is not a.length and not mods[k].grow and mods[k].v0.W is None and a.R is b.R:
                    mods[k].grow = True; new = True
                before = dict(sorts[k])
                leaf_sorts(b, (), sorts[k])
                if before != sorts[k]: new = True
        if not new: break
    else:
        raise Unsupported("loop modifications do not stabilise")
    # final generic iteration: conditions that do not depend on it fork the path
    pre = []
    for m in mods.values():        # what every iteration changes by the same amount never lies on the other side of its value on entry
        if st is None or not isinstance(m.ph, Poly) or not isinstance(m.v0, Poly): continue
        v = ex.get_path(st[m.ref.root], m.ref.path)
        d = v - m.ph if isinstance(v, Poly) else None
        if d is not None and d.is_const(): pre.append(ge(m.ph, m.v0) if d.const() >= 0 else le(m.ph, m.v0))
    outer, ex.layouts = ex.layouts, {}
    c, st, exits = run_body(ex, S, cond_fn, body_fn, inc_fn, False, True, pre)
    if st is None:
        # leaves in the first iteration at the latest
        ex.layouts = outer
        d = ex.branch(c0)
        if d is False: return
        if d is None: raise Unsupported("single-iteration loop in a merged context")
        ex.store = dict(S0)
        o0 = len(ex.outs)
        body_fn()
        for o in ex.outs[o0:]:
            if o[1] in ("break",):
                if ex.alive is FALSE and len(ex.outs) - o0 == 1:
                    ex.outs.pop(); ex.alive = TRUE; return
                raise Unsupported("exits of a single-iteration loop")
        return
    L = LoopSum(ex, node, S0, S, mods, c, st, exits, cond_fn, body_fn, inc_fn)
    try: L.solve()
    except Flat as F:
        ex.layouts, ex.undecoded = outer, None
        ex.store = S_first
        return by_rows(ex, node, F, cond_fn, body_fn, inc_fn, par)
    if par is not None: L.no_races(*par)
    for key, ways in ex.layouts.items():
        if len(ways) > 1: raise Unsupported("place of an array access among the rows")
        if outer is not None: outer.setdefault(key, set()).update(ways)
    ex.layouts = outer


def register_local(ex, m):
    def go(v):
        if isinstance(v, Poly):
            for a in atoms_of(v):
                if a.kind == "var": ex.locals.add(a)
                if a.kind == "app": ex.localapps.add(a.key[0])
        elif isinstance(v, Form):
            if v.op == "bvar": ex.locals |= v.fv
        elif isinstance(v, Obj):
            for x in v.f.values(): go(x)
        elif isinstance(v, Arr):
            for c, t in v.layers: go(t)
        elif isinstance(v, Vec):
            for x in v.items: go(x)
    go(m.ph)
    ex.locals.add(the_atom(var("\u2020", "I")))


MARK = the_atom(var("\u2020", "I"))
TT.NOMEMO.add(MARK)


class LoopSum:
    def __init__(self, ex, node, S0, S, mods, c, st, exits, cond_fn, body_fn, inc_fn):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    # ----------------------------------------------------------- analysis
    def solve(self):
        ex = self.ex
        self.scal, self.arrs = {}, {}
        for k, m in self.mods.items():
            f = ex.get_path_raw(self.st[m.ref.root], m.ref.path) if hasattr(ex, "get_path_raw") else \
                raw(self.st[m.ref.root], m.ref.path)
            if isinstance(m.v0, (Poly, Form)) or m.v0 is None:
                if m.v0 is None: raise Unsupported("loop writes a field that has no value yet")
                self.scal[k] = (m, f)
            elif isinstance(m.v0, Arr):
                self.arrs[k] = (m, f)
            else:
                raise Unsupported("loop modifies %r" % type(m.v0))
        self.find_counter()
        self.glen = {}
        for k, (m, f) in self.arrs.items():
            if m.grow:
                d = self.kk(f.length - m.glen) if isinstance(f, Arr) else None
                if d is None or ex.is_local_ph(d, self) or self.kv in d.fv: raise Unsupported("array grows irregularly in loop")
                done = (self.K - self.lo) if self.step == 1 else (self.hi - 1 - self.K)
                self.glen[the_atom(m.glen)] = m.v0.length + d * done
                m.gstep = d
        self.parse_arrays()
        self.resolve_scalars()
        if self.uncounted: self.assume_condition()
        self.finish()

    glen = {}

    def find_counter(self):
        ex = self.ex
        steps = {}
        for k, (m, f) in self.scal.items():
            if isinstance(f, Poly) and isinstance(m.ph, Poly):
                d = f - m.ph
                if d.is_const() and d.m and d.const() in (1, -1):
                    steps[the_atom(m.ph)] = (k, int(d.const()))
        conj = list(self.c.args) if self.c.op == "and" else [self.c]
        best = None
        for i, f in enumerate(conj):
            g = f.args[0] if f.op == "not" else f
            if g.op not in ("le", "eq"): continue
            p = g.args[0]
            for a, (k, s) in steps.items():
                cf = dict(p.m).get(((a, 1),))
                if cf is None or abs(cf) != 1: continue
                rest = p - P(cf) * from_atom(a)
                if a in rest.fv or ex.is_local_ph(rest, self): continue
                if f.op == "le" and g is f and cf * s == 1:
                    best = (i, a, k, s, (-rest + 1) if s == 1 else rest, False)
                    break
                if f.op == "not" and g.op == "eq":
                    best = (i, a, k, s, -rest * P(cf) if s == 1 else -rest * P(cf) + 1, True)
                    break
            if best: break
        if best is None: return self.count_iterations()
        i, a, k, s, b, must = best
        self.kphatom, self.kkey, self.step = a, k, s
        m = self.scal[k][0]
        x0 = m.v0
        self.K = fresh("k", "I")
        self.kv = the_atom(self.K)
        ex.locals.add(self.kv)
        if s == 1: self.lo, self.hi = x0, b
        else: self.lo, self.hi = b, x0 + 1
        W = ex.undecoded
        if W is not None and s == 1 and self.lo is ZERO and len(self.hi.m) == 1 and as_atom(W) is not None and m.ref.root[0] != "flat":
            d = dict(self.hi.m[0][0]); w = the_atom(W)
            if self.hi.m[0][1] == 1 and (d == {w: 2} or (d.get(w) == 1 and len(d) == 2)):
                rows = W if len(d) == 1 else from_atom(next(x for x in d if x is not w))
                if ex.env.prove(AND(ge(rows, 0), ge(W, 1)), 1): raise Flat(m.ref, rows, W)
        self.extra = [f for j, f in enumerate(conj) if j != i]
        for f in self.extra:
            self.exits = [(NOT(f), "break", None, dict(self.S))] + \
                         [(AND(f, o[0]),) + tuple(o[1:]) for o in self.exits]
        if not ex.env.prove(le(self.lo, self.hi), 2):
            d = ex.branch(le(self.lo, self.hi))
            if d is None:
                raise Unsupported("loop range may be empty in a merged context")
            if d is False:
                if must: raise Unsupported("loop with != bound may not terminate")
                self.hi = self.lo
        del self.scal[k]

    def count_iterations(self):
        """no counter: the iterations are counted from 0 to a number N about which only the loop
        condition is known (true before each of them, false after the last); partial correctness"""
        ex = self.ex
        if ex.merge: raise Unsupported("loop bound not recognised: %s" % (self.c,))
        self.K = fresh("k", "I"); self.kv = the_atom(self.K); ex.locals.add(self.kv)
        self.kphatom, self.kkey, self.step = the_atom(var("@it%d" % self.K.m[0][0][0][0].id, "I")), None, 1
        self.lo, self.hi, self.extra, self.uncounted = ZERO, fresh("iterations", "I"), [], True
        ex.assume(ge(self.hi, 0))

    uncounted = False

    def assume_condition(self):
        """what is known about N"""
        ex = self.ex
        q = fresh("q", "I"); ex.locals.add(the_atom(q))
        ex.env.push(); ex.env.assume(self.rng(q))
        cq = self.resolve_at(self.kk(self.c), q)
        ex.env.pop()
        ex.env.assume_forall(the_atom(q), self.rng(q), cq)
        if ex.branch(ge(self.hi, 1)):
            ex.assume(subst(cq, {the_atom(q): self.hi - 1})); ex.assume(subst(cq, {the_atom(q): ZERO}))
        if not self.exits:
            ex.assume(NOT(self.resolve_at(self.kk(self.c), self.hi)))
        if ex.env.inconsistent(2):
            from exec import Infeasible
            raise Infeasible()

    def rng(self, k):
        return AND(le(self.lo, k), lt(k, self.hi))

    def before(self, k):
        """range [a,b) of iterations done before iteration k"""
        return (self.lo, k) if self.step == 1 else (k + 1, self.hi)

    def in_before(self, x, k):
        a, b = self.before(k)
        return AND(le(a, x), lt(x, b))

    def kk(self, t):
        t = vsubst(t, {self.kphatom: self.K})
        return vsubst(t, self.glen) if self.glen else t

    # -------------------------------------------------------------- threads
    def no_races(self, own, private, lastprivate):
        """the iterations may run at the same time: none touches what another one writes"""
        ex, K = self.ex, self.K
        text = "iterations of a parallel loop do not write what another one reads or writes"
        if self.exits: raise Unsupported("exit from a parallel loop")
        forget, inner = [], set()
        values = [f for m, f in self.scal.values()]
        for key, (m, f) in self.arrs.items():
            if self.writes[key][0] != "layers" or m.grow: raise Unsupported("parallel loop replaces an array")
            values += [t for w in self.writes[key][1] for t in w[1:]]
        if any(not isinstance(t, (Poly, Form)) for t in values): raise Unsupported("values written in a parallel loop")
        for key, (m, f) in self.scal.items():
            decl = m.ref.root[2] if m.ref.root[0] == "v" else None
            if m.ref.root[0] == "flat" or decl in own or key == self.kkey: continue
            if decl in private or decl in lastprivate:
                ex.oblige(FALSE if any(the_atom(m.ph) in t.fv for t in values) else TRUE, "race", "a private variable is set before it is used")
                if decl in private: forget.append(m)
            else: ex.oblige(FALSE, "race", text)
        carried = {the_atom(m.ph) for m, f in self.scal.values() if isinstance(m.ph, Poly)}
        for m in forget: ex.storeto(m.ref, fresh("unspecified", m.v0.sort))
        at = lambda key, w, idx: AND(self.rng(sol(w, idx, key)), subst(place(w, idx, key), {self.kv: sol(w, idx, key)}))
        where = lambda idx, key: dict(zip([x for x in (self.arrs[key][1].R, self.arrs[key][1].C) if x is not None], idx))
        sol = lambda w, idx, key: subst(w[0], where(idx, key))
        place = lambda w, idx, key: subst(w[1], where(idx, key))

        def apart(key, idx, k, skip=None):
            for w in self.writes[key][1]:
                if w is skip: continue
                if w[0] is None: g = NOT(AND(place(w, idx, key), le(self.lo, K), lt(K, self.hi), ge(self.hi - self.lo, 2)))
                else: g = NOT(AND(at(key, w, idx), ne(sol(w, idx, key), k)))
                ex.oblige(g, "race", text)
        for key, (m, f) in self.arrs.items():
            me = [from_atom(x) for x in (f.R, f.C) if x is not None]
            for w in self.writes[key][1]:
                ex.env.push()
                ex.env.assume(self.rng(K)); ex.env.assume(w[1])
                if not ex.env.inconsistent(1):
                    apart(key, me, K, w if w[0] is not None else None)
                    seen = set()
                    for a in list(atoms_of(w[1])) + list(atoms_of(w[2])):
                        if a.kind != "app" or a.key[0] not in self.phname or a in seen: continue
                        seen.add(a)
                        k2 = self.phname[a.key[0]]
                        n = 2 if self.arrs[k2][1].C is not None else 1
                        idx = list(a.args[1:1 + n])
                        for x in idx:
                            if any(y in carried for y in x.fv) or app_names(x) & set(self.phname): raise Unsupported("element read in a parallel loop")
                        apart(k2, idx, K)
                    if {x for x in app_names(w[1]) | app_names(w[2]) if x in self.phname} - {a.key[0] for a in seen}: raise Unsupported("element read in a parallel loop")
                ex.env.pop()

    # ------------------------------------------------------------- arrays
    def parse_arrays(self):
        self.writes = {}
        self.phname = {}
        for key, (m, f) in self.arrs.items():
            W = []
            if not isinstance(f, Arr): raise Unsupported("array replaced in loop")
            ph = m.ph
            if f.R is not ph.R or not f.layers or f.layers[0][1] is not ph.layers[0][1]:
                # replaced as a whole by a fresh value
                W.append((None, TRUE, (f, None)))
                self.writes[key] = ("whole", f)
                for nm in m.names: self.phname[nm] = key
                continue
            if f.length is not ph.length and not m.grow: raise Unsupported("array resized in loop")
            if m.grow and m.gstep is not ONE:
                W.append(self.slab(m, f)); self.writes[key] = ("rows", W)
                for nm in m.names: self.phname[nm] = key
                continue
            for cond, tmpl in f.layers[1:]:
                cond = self.kk(cond); tmpl = self.kk(tmpl)
                sol = self.solve_k(cond, f)
                W.append((sol, cond, tmpl))
            self.writes[key] = ("layers", W)
            for nm in m.names: self.phname[nm] = key

    def slab(self, m, f):
        """every iteration appends one row of gstep elements to an empty array"""
        ex = self.ex
        if m.v0.length is not ZERO or self.step != 1 or self.lo is not ZERO or len(f.layers) != 2: raise Unsupported("array grows by rows")
        c = fresh("c", "I"); ex.locals.add(the_atom(c))
        cond, t = self.kk(f.layers[1][0]), self.kk(f.layers[1][1])
        mp = {f.R: self.K * m.gstep + c}
        ex.env.push(); ex.env.assume(self.rng(self.K)); ex.env.assume(AND(le(0, c), lt(c, m.gstep)))
        ok = ex.env.prove(subst(cond, mp), 2)
        t = vsubst(t, mp)
        t = ex.simp(t) if isinstance(t, Poly) else t
        ex.env.pop()
        if not ok: raise Unsupported("array grows by rows")
        return (the_atom(c), None, t)

    def solve_k(self, cond, arr):
        """k as a function of the written index, from an equality in cond; None if k-free"""
        if self.kv not in cond.fv: return None
        cs = list(cond.args) if cond.op == "and" else [cond]
        for f in cs:
            if f.op == "eq":
                p = f.args[0]
                cf = dict(p.m).get(((self.kv, 1),))
                if cf is not None and abs(cf) == 1:
                    rest = p - P(cf) * self.K
                    if self.kv not in rest.fv and (arr.R in rest.fv or (arr.C is not None and arr.C in rest.fv)):
                        return rest * P(-cf)
        # slab writes  lo(k) <= R < hi(k): unsupported
        raise Unsupported("array write pattern in loop: %s" % (cond,))

    def arr_value_at(self, key, idx, k, depth=0):
        """value (with resolved placeholders) of array element idx at the start of iteration k"""
        ex = self.ex
        m, f = self.arrs[key]
        kind, W = self.writes[key]
        if kind == "whole":
            raise Unsupported("carried whole-array value")
        if depth > 6: raise Unsupported("array recurrence")
        for sol, cond, tmpl in reversed(W):
            mp = {f.R: idx[0]}
            if f.C is not None: mp[f.C] = idx[1]
            if sol is not None:
                kk = subst(sol, mp)
                w = AND(self.in_before(kk, k), subst(subst(cond, mp), {self.kv: kk}))
                w = self.resolve(w, k, depth + 1) if ex.is_local_ph(w, self) else w
                d = ex.env.decide(w, 2)
                if d is False: continue
                if d is True:
                    t = vsubst(vsubst(tmpl, mp), {self.kv: kk})
                    return self.resolve_at(t, kk, depth + 1)
                raise Unsupported("loop reads an element that may or may not have been written: %s" % (w,))
            else:
                w = subst(cond, mp)
                d = ex.env.decide(w, 2)
                if d is False: continue
                if d is True:
                    return self.cell(key, idx, tmpl, mp, k, depth)
                raise Unsupported("loop reads an element that may or may not have been written: %s" % (w,))
        v0 = m.v0
        if (v0.W is not None) != (len(idx) == 2): raise Unsupported("index shape")
        return ex.read(v0, idx)

    def cell(self, key, idx, tmpl, mp, k, depth):
        """a cell written in every iteration: accumulator or last value"""
        ex = self.ex
        m, f = self.arrs[key]
        t = vsubst(tmpl, mp)
        if not isinstance(t, Poly): raise Unsupported("cell value")
        own = [a for a in atoms_of(t) if a.kind == "app" and self.phname.get(a.key[0]) == key]
        v0 = ex.read(m.v0, idx)
        if not own:
            a, b = self.before(k)
            d = ex.branch(lt(a, b))
            if d is False: return v0
            if d is None: raise Unsupported("cell")
            last = (b - 1) if self.step == 1 else a
            return self.resolve_at(t, last, depth + 1)
        for a in own:
            if not ex.env.prove(AND(*[eq(x, y) for x, y in zip(a.args[1:], idx)]), 2):
                raise Unsupported("cell recurrence")
        delta = replace(t, {a: ZERO for a in own})
        if any(t - delta is not from_atom(a) for a in own) or len(own) != 1: raise Unsupported("cell recurrence %s / %s / %s" % (own, t, delta))
        q = fresh("q", "I"); ex.locals.add(the_atom(q))
        a, b = self.before(k)
        ex.env.push(); ex.env.assume(AND(le(a, q), lt(q, b)))
        dq = self.resolve_at(delta, q, depth + 1)
        ex.env.pop()
        return v0 + ex.mk_sum(dq, the_atom(q), a, b)

    # ------------------------------------------------------------ scalars
    def resolve(self, t, k=None, depth=0):
        """t over placeholders and K -> over entry values and K (generic iteration)"""
        ex = self.ex
        k = self.K if k is None else k
        if not isinstance(t, (Poly, Form, Arr, Obj)): return t
        if isinstance(t, (Arr, Obj)):
            return self.resolve_val(t, k, depth)
        for rnd in range(12):
            names = [a for a in app_names(t) if a in self.phname]
            if names:
                t = self.hook(t, k, depth)
                continue
            mp = {}
            for a in t.fv:
                r = self.closed_of(a)
                if r is not None: mp[a] = r
            if not mp: return ex.simp(t)
            if k is not self.K: mp = {a: (subst(v, {self.kv: k})) for a, v in mp.items()}
            t = subst(t, mp)
        raise Unsupported("loop recurrence")

    def resolve_val(self, v, k, depth):
        if isinstance(v, Obj):
            return Obj(v.cls, {n: self.resolve(x, k, depth) for n, x in v.f.items()})
        L = []
        for c, t in v.layers:
            L.append((self.resolve(c, k, depth), self.resolve(t, k, depth)))
        return Arr(self.resolve(v.length, k, depth), v.W, v.R, v.C, L, v.tag)

    def hook(self, t, k, depth):
        saved = {}
        for nm, key in self.phname.items():
            base = nm.split("!")[0]
            saved[base] = TT._app_norm.get(base)
            def h(args, nm=nm, key=key):
                if args[0] is not ZERO: return None
                return self.elem_leaf(key, nm, args[1:], k, depth)
            TT._app_norm[base] = h
        try:
            return vsubst(t, {MARK: ZERO})
        finally:
            for b, s in saved.items():
                if s is None: TT._app_norm.pop(b, None)
                else: TT._app_norm[b] = s

    def elem_leaf(self, key, nm, idx, k, depth):
        m, f = self.arrs[key]
        path = m.names[nm]
        idx = list(idx)
        # indices themselves may contain placeholders
        idx = [self.resolve(x, k, depth + 1) if self.ex.is_local_ph(x, self) else x for x in idx]
        cur = None
        arr = m.v0
        n = 2 if arr.W is not None else 1
        val = self.arr_value_at(key, tuple(idx[:n]), k, depth)
        idx = idx[n:]
        for p in path[1:]:
            if p == "[]":
                n = 2 if val.W is not None else 1
                val = self.ex.read(val, tuple(idx[:n])); idx = idx[n:]
            elif isinstance(p, int):
                val = val.items[p]
            else:
                val = val.f[p]
        return val

    def closed_of(self, a):
        return self.closed.get(a)

    def resolve_at(self, t, k, depth=0):
        """t is over placeholders and K; value at iteration k"""
        t2 = vsubst(t, {self.kv: k}) if k is not self.K else t
        ex = self.ex
        for rnd in range(12):
            if isinstance(t2, (Arr, Obj)):
                return self.resolve_val(t2, k, depth)
            if not isinstance(t2, (Poly, Form)): return t2
            names = [a for a in app_names(t2) if a in self.phname]
            if names:
                t2 = self.hook(t2, k, depth); continue
            mp = {}
            for a in t2.fv:
                r = self.closed_of(a)
                if r is not None: mp[a] = subst(r, {self.kv: k})
            if not mp: return ex.simp(t2)
            t2 = subst(t2, mp)
        raise Unsupported("loop recurrence")

    def resolve_scalars(self):
        ex = self.ex
        self.closed = {self.kphatom: self.K}
        self.kind = {}
        todo = {}
        for key, (m, f) in self.scal.items():
            if isinstance(m.ph, Poly): todo[the_atom(m.ph)] = (key, m, self.kk(f))
            else: todo[next(iter(m.ph.fv))] = (key, m, self.kk(f))
        allph = set(todo)
        ex.env.push()
        ex.env.assume(self.rng(self.K))
        try:
            progress = True
            why = None
            while todo and progress:
                progress = False
                for a in sorted(todo, key=lambda x: x.id):
                    key, m, f = todo[a]
                    try:
                        g = self.resolve_partial(f, set(todo))
                    except Unsupported as e:
                        why = e; continue
                    dep = {x for x in g.fv if x in todo}
                    dep |= self.hidden_dep(g, todo)
                    if isinstance(g, Form):
                        if dep: 
                            why = Unsupported("carried flag"); continue
                        self.kind[key] = ("last", g, m)
                        self.closed[a] = None
                        self.setlast(a, g, m)
                    elif not dep:
                        self.kind[key] = ("last", g, m)
                        self.setlast(a, g, m)
                    elif dep == {a}:
                        d = g - from_atom(a)
                        if a in d.fv:
                            why = Unsupported("recurrence for a scalar: %s" % (g,)); continue
                        d = ex.simp(d)
                        self.kind[key] = ("acc", d, m)
                        lo, hi = self.before(self.K)
                        q = fresh("q", "I"); ex.locals.add(the_atom(q))
                        dq = subst(d, {self.kv: q})
                        self.closed[a] = m.v0 + ex.mk_sum(dq, the_atom(q), lo, hi)
                    else:
                        continue
                    del todo[a]
                    progress = True
            if todo:
                raise why or Unsupported("loop-carried scalars: %s" % [str(x) for x in todo])
        finally:
            ex.env.pop()

    def hidden_dep(self, g, todo): return set()

    def setlast(self, a, g, m):
        ex = self.ex
        prev = self.K - self.step
        first = self.lo if self.step == 1 else self.hi - 1
        gp = vsubst(g, {self.kv: prev})
        if isinstance(g, Form):
            self.closed[a] = OR(AND(eq(self.K, first), m.v0), AND(ne(self.K, first), gp))
        else:
            self.closed[a] = ite(eq(self.K, first), m.v0, gp)

    def resolve_partial(self, t, todo):
        for rnd in range(12):
            names = [a for a in app_names(t) if a in self.phname]
            if names:
                t = self.hook(t, self.K, 0); continue
            mp = {a: self.closed[a] for a in t.fv if self.closed.get(a) is not None and a not in todo}
            mp = {a: v for a, v in mp.items() if v is not from_atom(a)}
            if not mp: return self.ex.simp(t)
            t = subst(t, mp)
        raise Unsupported("loop recurrence")

    # -------------------------------------------------------------- states
    def arr_layers(self, key, lo, hi):
        """entry array + what the iterations in [lo,hi) wrote"""
        ex = self.ex
        m, f = self.arrs[key]
        kind, W = self.writes[key]
        if kind == "whole":
            d = ex.branch(lt(lo, hi))
            if d is False: return m.v0
            last = hi - 1 if self.step == 1 else lo
            if d is None:
                v0 = m.v0
                if not isinstance(v0, Arr) or f.length is not v0.length or v0.W is not None or f.W is not None: raise Unsupported("whole-array write")
                ex.env.push(); ex.env.assume(lt(lo, hi))
                try: r = self.resolve_at(self.kk(f), last)
                finally: ex.env.pop()
                return v0.with_layer(lt(lo, hi), ex.read(r, (from_atom(v0.R),)))
            return self.resolve_at(self.kk(f), last)
        out = m.v0
        if kind == "rows":
            c, _, t = W[0]
            nr, nc = idxvars(True)
            v = self.resolve_at(vsubst(t, {c: from_atom(nc)}), from_atom(nr))
            return Arr(hi * m.gstep, m.gstep, nr, nc, [(TRUE, v)])
        if m.grow: out = Arr(m.v0.length + m.gstep * (hi - lo), out.W, out.R, out.C, out.layers, out.tag)
        R = from_atom(f.R)
        if (out.W is None) != (f.W is None): raise Unsupported("array view changed in loop")
        nR, nC = out.R, out.C
        mp0 = {f.R: from_atom(nR)}
        if f.C is not None: mp0[f.C] = from_atom(nC)
        ex.locals.add(nR)
        if nC is not None: ex.locals.add(nC)
        # later iterations must end on top
        order = list(range(len(W)))
        sols = [w[0] for w in W]
        import functools
        def cmp(i, j):
            a, b = sols[i], sols[j]
            if a is None or b is None or a is b:
                if (a is None) != (b is None):
                    # fixed cell against moving writes: must be disjoint
                    w = AND(W[i][1], W[j][1])
                    ex.env.push(); ex.env.assume(self.rng(self.K))
                    dis = ex.env.prove(NOT(w), 2)
                    ex.env.pop()
                    if not dis: raise Unsupported("overlapping writes in loop")
                return i - j
            d = a - b
            if d.is_const():
                later = d.const() > 0 if self.step == 1 else d.const() < 0
                return 1 if later else -1
            raise Unsupported("overlapping writes in loop")
        order.sort(key=functools.cmp_to_key(cmp))
        for i in order:
            sol, cond, tmpl = W[i]
            sol = None if sol is None else subst(sol, mp0)
            cond, tmpl = subst(cond, mp0), vsubst(tmpl, mp0)
            if sol is not None:
                c = AND(le(lo, sol), lt(sol, hi), subst(cond, {self.kv: sol}))
                if ex.is_local_ph(c, self):
                    ex.env.push()
                    try:
                        ex.env.assume(AND(le(lo, sol), lt(sol, hi)))
                        c = AND(le(lo, sol), lt(sol, hi), self.resolve_at(cond, sol))
                    finally:
                        ex.env.pop()
                ex.env.push()
                ex.env.assume(c)
                try:
                    t = self.resolve_at(tmpl, sol)
                finally:
                    ex.env.pop()
                out = out.with_layer(c, t)
            else:
                d = ex.branch(lt(lo, hi))
                if d is False: continue
                if d is None: raise Unsupported("cell write")
                if isinstance(tmpl, Poly) and any(a.kind == "app" and self.phname.get(a.key[0]) == key for a in atoms_of(tmpl)):
                    cs = list(cond.args) if cond.op == "and" else [cond]
                    idx = []
                    for v in (nR, nC):
                        if v is None: continue
                        hit = None
                        for g in cs:
                            if g.op == "eq":
                                p = g.args[0]; cf = dict(p.m).get(((v, 1),))
                                if cf in (1, -1): hit = (p - P(cf) * from_atom(v)) * P(-cf)
                        if hit is None: raise Unsupported("cell index")
                        idx.append(hit)
                    mp = {nR: idx[0]}
                    if nC is not None: mp[nC] = idx[1]
                    own = [a for a in atoms_of(vsubst(tmpl, mp)) if a.kind == "app" and self.phname.get(a.key[0]) == key]
                    t = vsubst(tmpl, mp)
                    for a in own:
                        if not ex.env.prove(AND(*[eq(x, y) for x, y in zip(a.args[1:], idx)]), 2):
                            raise Unsupported("cell recurrence")
                    delta = replace(t, {a: ZERO for a in own})
                    if len(own) != 1 or (t - delta) is not from_atom(own[0]): raise Unsupported("cell recurrence")
                    q = fresh("q", "I"); ex.locals.add(the_atom(q))
                    ex.env.push(); ex.env.assume(AND(le(lo, q), lt(q, hi)))
                    dq = self.resolve_at(delta, q)
                    ex.env.pop()
                    val = ex.read(m.v0, tuple(idx)) + ex.mk_sum(dq, the_atom(q), lo, hi)
                    out = out.with_layer(cond, val)
                else:
                    last = hi - 1 if self.step == 1 else lo
                    out = out.with_layer(cond, self.resolve_at(tmpl, last))
        return out

    def state_at(self, k, S):
        """store at the start of iteration k (k a term)"""
        ex = self.ex
        lo, hi = self.before(k)
        st = dict(self.S0)
        save = ex.store
        ex.store = st
        try:
            if self.kkey is not None: ex.storeto(self.mods[self.kkey].ref, k)
            for key, (m, f) in self.scal.items():
                a = the_atom(m.ph) if isinstance(m.ph, Poly) else next(iter(m.ph.fv))
                ex.storeto(m.ref, ex.simp(vsubst(self.closed[a], {self.kv: k})))
            for key, (m, f) in self.arrs.items():
                if self.writes[key][0] == "rows":      # contents left open here
                    r, _ = idxvars(False)
                    nm = "open%d" % r.id
                    ex.localapps.add(nm)
                    ex.storeto(m.ref, Arr(hi * m.gstep, None, r, None, [(TRUE, app(nm, [from_atom(r)]))]))
                    continue
                ex.storeto(m.ref, self.arr_layers(key, lo, hi))
            return ex.store
        finally:
            ex.store = save

    def final_state(self):
        ex = self.ex
        st = dict(self.S0)
        ex.store = st
        if self.kkey is not None: ex.storeto(self.mods[self.kkey].ref, self.hi if self.step == 1 else self.lo - 1)
        last = self.hi - 1 if self.step == 1 else self.lo
        vals = []
        for key, (m, f) in self.scal.items():
            kind, g, _ = self.kind[key]
            if kind == "acc":
                q = fresh("q", "I"); ex.locals.add(the_atom(q))
                v = m.v0 + ex.mk_sum(subst(g, {self.kv: q}), the_atom(q), self.lo, self.hi)
            else:
                d = ex.branch(lt(self.lo, self.hi))
                if d is True: v = ex.simp(vsubst(g, {self.kv: last}))
                elif d is False: v = m.v0
                else: v = ex.val_ite(lt(self.lo, self.hi), vsubst(g, {self.kv: last}), m.v0)
            vals.append((m.ref, v))
        for key, (m, f) in self.arrs.items():
            vals.append((m.ref, self.arr_layers(key, self.lo, self.hi)))
        for r, v in vals: ex.storeto(r, v)
        return ex.store

    def exit_form(self, k):
        ex = self.ex
        ex.env.push(); ex.env.assume(self.rng(k))
        try:
            return OR(*[self.resolve_at(self.kk(o[0]), k) for o in self.exits])
        finally:
            ex.env.pop()

    def finish(self):
        ex = self.ex
        nonempty = ex.env.decide(lt(self.lo, self.hi), 1)
        if self.exits and ex.merge > 0:
            raise Unsupported("early exit of a loop inside a loop")
        # ---- obligations of the body, for an arbitrary iteration
        if not ex.quiet and nonempty is not False:
            k = fresh("k", "I")
            ex.locals.add(the_atom(k))
            pre = [self.rng(k)]
            ex.env.push()
            for f in pre: ex.env.assume(f)
            Sk = self.state_at(k, None)
            if self.exits:
                q = fresh("q", "I"); ex.locals.add(the_atom(q))
                ef = self.exit_form(q)
                ex.env.assume_forall(the_atom(q), self.in_before(q, k), NOT(ef))
            try:
                run_body(ex, Sk, self.cond_fn, self.body_fn, self.inc_fn, False, False)
            finally:
                ex.env.pop()
        ex.store = dict(self.S0)
        # ---- exits
        if self.exits:
            ch = ex.choose(len(self.exits) + 1)
            q = fresh("q", "I"); ex.locals.add(the_atom(q))
            ef = self.exit_form(q)
            if ch > 0:
                cond, kind, val, s = self.exits[ch - 1]
                j = fresh("j", "I")
                ex.assume(self.rng(j))
                ex.env.assume_forall(the_atom(q), self.in_before(q, j), NOT(ef))
                f = self.resolve_at(self.kk(cond), j)
                ex.pathdesc.append("loop exit at %s: %s" % (j, f))
                ex.assume(f)
                if ex.env.inconsistent(2):
                    from exec import Infeasible
                    raise Infeasible()
                # settle where this exit lies relative to earlier ones
                for j0 in ex.exitsyms:
                    if ex.branch(le(j, j0)): ex.branch(eq(j, j0))
                    else: ex.branch(eq(j, j0 + 1))
                ex.exitsyms.append(j)
                Sj = self.state_at(j, None)
                # effects of the partial iteration
                st = dict(Sj)
                ex.store = st
                for ref, a, b in diff(ex, self.S, s):
                    if isinstance(b, Arr):
                        base = raw(Sj[ref.root], ref.path)
                        v = self.apply_layers(base, raw(self.S[ref.root], ref.path), b, j)
                    else:
                        v = self.resolve_at(self.kk(b), j)
                    ex.storeto(ref, v)
                for r in s:
                    if r not in self.S: ex.store[r] = self.resolve_at(self.kk(s[r]), j) if isinstance(s[r], (Poly, Form)) else s[r]
                if kind == "break": return
                v = self.resolve_at(self.kk(val), j) if val is not None else None
                ex.outs.append((AND(*ex.gstack[ex._gb:]), kind, v, dict(ex.store)))
                ex.alive = FALSE
                return
            ex.env.assume_forall(the_atom(q), self.rng(q), NOT(ef))
            ex.pathdesc.append("loop runs to its end")
        self.final_state()

    def apply_layers(self, base, ph, b, j):
        if b.R is not ph.R: return self.resolve_at(self.kk(b), j)
        mp = {b.R: from_atom(base.R)}
        if b.C is not None: mp[b.C] = from_atom(base.C)
        for c, t in b.layers[len(ph.layers):]:
            base = base.with_layer(self.resolve_at(self.kk(subst(c, mp)), j), self.resolve_at(self.kk(vsubst(t, mp)), j))
        return base


def raw(v, path):
    for st in path:
        if st[0] == "f": v = v.f[st[1]]
        else: raise Unsupported("path")
    return v
