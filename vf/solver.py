"""Obligation discharge: path facts + lemma instantiation -> z3."""
import z3, time
from terms import *
from terms import _pfx_at, atoms_at
import terms as T
from values import Unsupported

PAIR_ROUNDS = 2
STATS = {"queries": 0, "z3_s": 0.0, "by": {}}


def ax_idiv(args):
    """integer quotient and remainder towards zero"""
    a, b = args
    q, r = app("idiv", args, "I"), app("imod", args, "I")
    return [IMP(ne(b, 0), eq(a, b * q + r)),
            IMP(AND(ge(a, 0), gt(b, 0)), AND(ge(r, 0), lt(r, b), ge(q, 0))), IMP(AND(le(a, 0), gt(b, 0)), AND(le(r, 0), lt(-r, b), le(q, 0)))]


def ax_round(args):
    x = args[0]
    c, f, t = app("ceil", args, "I"), app("floor", args, "I"), app("trunc", args, "I")
    return [le(x, c), lt(c, x + 1), le(f, x), lt(x - 1, f), IMP(ge(x, 0), eq(t, f)), IMP(le(x, 0), eq(t, c))]


class Env:
    """Facts of one path, with scoped push/pop."""

    def __init__(self):
        self.facts = []            # Forms
        self.factset = set()
        self.univ = []             # (var atom, guard Form, body Form)
        self.sums = []             # (body, var, lo, hi) registered for sign lemmas
        self.sumset = set()
        self.subs = []             # (atom, term): solved equalities, applied everywhere
        self.ax = {"idiv": ax_idiv, "imod": ax_idiv, "ceil": ax_round, "floor": ax_round, "trunc": ax_round}     # app name -> fn(args)->[Form]
        self.pair = {}             # app name -> fn(args1,args2)->[Form]
        self.scopes = []
        self._cache = {}
        self.ctx = {}              # query caches by set of facts
        self.stale, self.pos = True, {}
        self.gen1, self.gen2 = {}, {}     # axiom instances (they depend on the arguments only)
        self.lempos = {}
        self.lemall = {}
        self.lemfail = {}
        self.busy = 0

    # --- scopes
    def push(self):
        self.scopes.append(self._frame())
        self.facts, self.factset, self.univ, self.subs = list(self.facts), set(self.factset), list(self.univ), list(self.subs)
        self.lempos = dict(self.lempos)

    def pop(self):
        self._set(self.scopes.pop())

    def _frame(self):
        return (self.facts, self.factset, self.univ, self.subs, self.lempos, self._cache, self.stale, self.pos)

    def _set(self, fr):
        self.facts, self.factset, self.univ, self.subs, self.lempos, self._cache, self.stale, self.pos = fr

    def norm(self, t):
        for a, e in self.subs: t = subst(t, {a: e})
        return t

    def assume(self, f):
        f = self.norm(f)
        if f is TRUE: return
        if f.op == "and":
            for x in f.args: self.assume(x)
            return
        if f in self.factset: return
        f = self._tighten(f)
        self._dirty()
        if f.op == "eq":
            ae = _solvable(f.args[0])
            if ae:
                a, e = ae
                mp = {a: e}
                self.subs.append((a, e))
                old = self.facts
                self.facts, self.factset = [], set()
                for g in old:
                    h = subst(g, mp)
                    if h is TRUE or h in self.factset: continue
                    self.facts.append(h); self.factset.add(h)
                self.univ = [(v, subst(g, mp), subst(b, mp)) for v, g, b in self.univ]
                return
        self.facts.append(f)
        self.factset.add(f)

    def _tighten(self, f):
        """x<=y together with y<=x gives x==y"""
        if f.op == "le" and f.args[0].sort == "I":
            g = le0(neg(f.args[0]))
            if g in self.factset: return eq0(f.args[0])
        return f

    def _dirty(self):
        # positive results stay valid under more facts
        if not self.stale:
            self.pos = {k: v for k, v in self._cache.items() if v is True and k[0] != "ord"}
            self.stale = True

    @property
    def cache(self):
        """the query cache of exactly this set of facts"""
        if self.stale:
            key = (frozenset(self.factset), tuple(self.univ))
            c = self.ctx.get(key)
            if c is None: c = self.ctx[key] = {}
            if self.pos: c.update(self.pos)
            self._cache, self.stale, self.pos = c, False, {}
        return self._cache

    def assume_forall(self, v, guard, body):
        self.univ.append((v, self.norm(guard), self.norm(body)))
        self._dirty()

    def assume_everywhere(self, f):
        """assume f in every open scope"""
        saved = self.scopes
        cur = self._frame()
        out = []
        for fr in saved:
            self._set(fr)
            self.scopes = []
            self.assume(f)
            out.append(self._frame())
        self._set(cur)
        self.scopes = out
        self.assume(f)

    def register_sum(self, body, v, lo, hi):
        if body.is_const(): return
        k = (body, v, lo, hi)
        if k in self.sumset: return
        self.sumset.add(k)
        self.sums.append(k)

    # --- queries
    deadline = None

    def prove(self, f, level=3):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
        f = self.norm(f)
        if f is TRUE: return True
        if f in self.factset: return True
        if f.op == "and":
            return all(self.prove(x, level) for x in f.args)
        key = (f, level)
        r = self.cache.get(key)
        if r is None:
            if f is FALSE:
                r = self._unsat([], level)
            else:
                r = self._unsat([NOT(f)], level)
                if not r and level >= 2 and f.op == "le": r = self._by_factors(f.args[0], level)
            self.cache[key] = r
        return r

    def _by_factors(self, p, level):
        g, q = factor(p)
        if not g or q.is_const(): return False
        return self._nonneg_f(-p, level)

    def _nonneg_f(self, p, level):
        g, q = factor(p)
        sign = 1
        for a, e in g:
            if e % 2 == 0: continue
            x = from_atom(a)
            if self.prove(ge(x, 0), level): continue
            if self.prove(le(x, 0), level): sign = -sign; continue
            return False
        return self.nonneg(q if sign > 0 else -q, level)

    def decide(self, f, level=1):
        if f is TRUE: return True
        if f is FALSE: return False
        if self.prove(f, level): return True
        if self.prove(NOT(f), level): return False
        return None

    def inconsistent(self, level=1):
        return self.prove(FALSE, level)

    # --- instantiation
    def _relevant(self, extra):
        forms = list(self.facts) + list(extra)
        return forms

    def _instantiate(self, forms, level):
        seen_atoms = {}
        out = []
        outset = set(forms)
        frontier = list(forms)
        done_univ = set()
        for rnd in range(3 if level >= 1 else 2):
            acc = {}
            for f in frontier:
                for a in atoms_at(f): acc[a] = True
            new = [a for a in acc if a not in seen_atoms]
            if not new: break
            old = [a for a in seen_atoms]
            for a in new: seen_atoms[a] = True
            frontier = []
            def put(f):
                if f is TRUE or f in outset: return
                outset.add(f); out.append(f); frontier.append(f)
            for a in new:
                if a.kind == "app":
                    g = self.ax.get(a.key[0]) or self.ax.get(a.key[0].split("!")[0])
                    if g:
                        fs = self.gen1.get(a)
                        if fs is None: fs = self.gen1[a] = [f for f in g(a.args) if f is not TRUE]
                        for f in fs: put(f)
            if rnd < PAIR_ROUNDS:
                byname = {}
                for a in seen_atoms:
                    if a.kind == "app":
                        byname.setdefault(a.key[0], []).append(a)
                newset = set(new)
                for name, lst in byname.items():
                    g = self.pair.get(name) or self.pair.get(name.split("!")[0])
                    if g:
                        for x in lst:
                            for y in lst:
                                if x is not y and (x in newset or y in newset):
                                    fs = self.gen2.get((x, y))
                                    if fs is None:
                                        fs = self.gen2[(x, y)] = [f for f in g(x.args, y.args) if f is not TRUE]
                                    for f in fs: put(f)
                # universals: e-matching on app arguments  v + c
                for ui, (v, guard, body) in enumerate(self.univ):
                    for (nm, pos, c, coef) in self._triggers(v, body):
                        for x in byname.get(nm, ()):
                            k = (x.args[pos] - c)
                            if v in k.fv: continue
                            if (ui, k) in done_univ: continue
                            done_univ.add((ui, k))
                            put(subst(IMP(guard, body), {v: k}))
        return out

    _trig = {}

    def _triggers(self, v, body):
        key = (v, body)
        r = Env._trig.get(key)
        if r is None:
            r = set()
            acc = {}
            atoms_of(body, acc)
            for a in acc:
                if a.kind == "app":
                    for pos, x in enumerate(a.args):
                        d = dict(x.m)
                        if d.get(((v, 1),)) == 1:
                            c = x - from_atom(v)
                            if v not in c.fv:
                                r.add((a.key[0], pos, c, 1))
            r = sorted(r, key=lambda q: (q[0], q[1], q[2].id))
            Env._trig[key] = r
        return r

    def _congruence(self, forms):
        acc = {}
        for f in forms:
            for a in atoms_at(f): acc[a] = True
        by = {}
        for a in acc:
            if a.kind == "app" and len(a.args) > 0:
                by.setdefault((a.key[0], len(a.args)), []).append(a)
        out = []
        for (nm, n), lst in by.items():
            if len(lst) > 14: lst = lst[:14]
            for i in range(len(lst)):
                for j in range(i):
                    conds = []
                    for x, y in zip(lst[i].args, lst[j].args):
                        c = eq(x, y)
                        conds.append(c)
                    c = AND(*conds)
                    if c is FALSE: continue
                    out.append(IMP(c, eq(from_atom(lst[i]), from_atom(lst[j]))))
        byp = {}
        for a in acc:
            if a.kind == "pfx":
                byp.setdefault(a.key[0], []).append(a)
        for k, lst in byp.items():
            if len(lst) > 8: lst = lst[:8]
            for i in range(len(lst)):
                for j in range(i):
                    c = eq(lst[i].args[1], lst[j].args[1])
                    if c is FALSE: continue
                    out.append(IMP(c, eq(from_atom(lst[i]), from_atom(lst[j]))))
        return out

    def _sum_lemmas(self, forms, level):
        """sign of sums whose body has one sign on its range: registered sums that occur in
        the query, and differences of prefix sums of one body"""
        if self.busy >= 3: return []
        acc = {}
        for f in forms:
            for a in atoms_at(f): acc[a] = True
        pl = [a for a in acc if a.kind == "pfx"]
        out = []
        if not pl: return out
        pset = set(pl)
        cands = []
        done = set()
        for (body, v, lo, hi) in self.sums:
            if self.subs: body, lo, hi = self.norm(body), self.norm(lo), self.norm(hi)
            s = pfx(body, v, hi) - pfx(body, v, lo)
            if v in s.fv or s in done: continue
            sa = [a for a in atoms_of(s) if a.kind == "pfx"]
            if not (all if self.busy else any)(a in pset for a in sa): continue
            done.add(s)
            cands.append((s, body, v, lo, hi))
        groups = {}
        for a in pl: groups.setdefault(a.key[0], []).append(a)
        for key, lst in groups.items():
            b = lst[0].args[0]
            v = the_atom(bv(key[1]))
            bounds = [ZERO] + sorted({a.args[1] for a in lst}, key=lambda p: p.id)
            if len(bounds) > 4: bounds = bounds[:4]
            for x in range(len(bounds)):
                for y in range(x):
                    lo, hi = bounds[y], bounds[x]
                    s = _pfx_at(key, b, hi) - _pfx_at(key, b, lo)
                    if s in done or -s in done or s.is_const(): continue
                    if not any(a.kind == "pfx" for a in atoms_of(s)): continue
                    done.add(s)
                    d = self._order(lo, hi)
                    if d is None: continue
                    if not d: lo, hi, s = hi, lo, -s
                    cands.append((s, b, v, lo, hi))
        for (s, body, v, lo, hi) in cands:
            r = self.lemma(s, body, v, lo, hi, level)
            out += r
        return out

    def _order(self, lo, hi):
        d = hi - lo
        if d.is_const(): return d.const() >= 0
        k = ("ord", d)
        if k in self.cache: return self.cache[k]
        f = le0(-d)
        r = None
        if _pure_int(f):
            fs = [g for g in self.facts if _pure_int(g)]
            if self._check(fs + [NOT(f)], 0): r = True
            elif self._check(fs + [f], 0): r = False
            elif self._check(fs + [NOT(le0(d))], 0): r = False
        self.cache[k] = r
        return r

    def lemma(self, s, body, v, lo, hi, level):
        """sign of the sum s of body over [lo,hi), from the sign of its summand.
        Proved from the facts that bear on the summand only, so that the answer
        (positive or negative) holds in every scope with those facts."""
        r = self.lempos.get(s)
        if r is not None: return r
        k = var("q%d" % (self.busy + 1), "I")
        b = subst(body, {v: k})
        rel = self._bearing(b)
        key = (s, frozenset(rel), tuple(self.univ))
        r = self.lemall.get(key)
        if r is not None:
            if r: self.lempos[s] = r
            return r
        if self.lemfail.get(s, 0) >= 2 and (level < 3 or self.busy): return []
        self.busy += 1
        self.push()
        self.facts, self.factset = rel, set(rel)
        self.stale, self.pos, self.lempos = True, {}, {}
        self.assume(AND(le(lo, k), lt(k, hi)))
        try:
            pos = self.nonneg(b, 1)
            neg_ = self.nonneg(-b, 1)
        finally:
            self.pop()
            self.busy -= 1
        r = []
        if pos: r.append(IMP(le(lo, hi), ge(s, 0)))
        if neg_: r.append(IMP(le(lo, hi), le(s, 0)))
        self.lemall[key] = r
        if r: self.lempos[s] = r
        else: self.lemfail[s] = self.lemfail.get(s, 0) + 1
        return r

    def _bearing(self, b):
        """the facts connected with b through shared real-valued atoms (two steps)"""
        want = {a for a in atoms_at(b) if not (a.kind == "var" and a.sort == "I")}
        for a in list(want):
            if a.kind == "app" and a.key[0] == "div":
                for x in a.args: want.update(y for y in atoms_at(x) if not (y.kind == "var" and y.sort == "I"))
        rest = []
        out = set()
        for f in self.facts:
            if _pure_int(f): out.add(f)
            else: rest.append((f, [a for a in atoms_at(f) if not (a.kind == "var" and a.sort == "I")]))
        names = {a.key[0] for a in want if a.kind == "app"}
        for step in range(2):
            add_ = []
            left = []
            for f, at in rest:
                if any(a in want for a in at) or (step == 0 and len(at) <= 4 and any(a.kind == "app" and a.key[0] in names for a in at)):
                    out.add(f); add_ += at
                else: left.append((f, at))
            rest = left
            want.update(add_)
            if not add_: break
        return [f for f in self.facts if f in out]

    def nonneg(self, p, level):
        """p >= 0, by factoring out common atoms first"""
        if p.is_const(): return p.const() >= 0
        k = ("nn", p)
        r = self.cache.get(k)
        if r is None:
            r = self._nonneg(p, level)
            self.cache[k] = r
        return r

    def _nonneg(self, p, level):
        g, q = factor(p)
        if g and not (q.is_const() and len(g) == 1 and g[0][1] == 1):
            sign = 1
            ok = True
            for a, e in g:
                if e % 2 == 0: continue
                x = from_atom(a)
                if self.prove(ge(x, 0), level): continue
                if self.prove(le(x, 0), level): sign = -sign; continue
                ok = False; break
            if ok and self.nonneg(q if sign > 0 else -q, level): return True
        if self._merged_sum(p, level): return True
        return self.prove(ge(p, 0), level)

    def _merged_sum(self, p, level):
        """p is a combination of sums over one range: look at the combined summand"""
        x = None
        parts = []
        for m, c in p.m:
            pf = [a for a, e in m if a.kind == "pfx" and e == 1]
            if len(pf) != 1: return False
            a = pf[0]
            if x is None: x = a.args[1]
            elif a.args[1] is not x: return False
            parts.append((tuple((b, e) for b, e in m if b is not a), c, a))
        if len(parts) < 2 or self.busy >= 3: return False
        if self._order(ZERO, x) is not True: return False
        self.busy += 1
        k = var("q%d" % self.busy, "I")
        body = ZERO
        for co, c, a in parts:
            body = add(body, mul(mono_poly(co, c), subst(a.args[0], {the_atom(bv(a.key[0][1])): k})))
        self.push(); self.assume(AND(le(0, k), lt(k, x)))
        try:
            return self.nonneg(body, 1)
        finally:
            self.pop()
            self.busy -= 1

    # --- z3
    def _unsat(self, extra, level):
        t0 = time.time()
        if all(_pure_int(f) for f in extra):
            fs = [f for f in self.facts if _pure_int(f)]
            if self._check(fs + list(extra), 0):
                self._stat("integer", t0); return True
            if extra and level <= 1 and not self.univ_int():
                self._stat("fail-int", t0); return False
        forms = self._relevant(extra)
        inst = self._instantiate(forms, level)
        allf = forms + inst
        r = self._check(allf, level=0)
        if r: self._stat("linear", t0); return True
        if level >= 2 or (level == 1 and any(a.kind in ("pfx", "app") for f in extra for a in atoms_at(f))):
            lem = self._sum_lemmas(self._focus(extra, allf, level), level) if (level >= 2 or any(a.kind == "pfx" for f in extra for a in atoms_at(f))) else []
            lem += self._congruence(allf)
            if lem:
                more = self._instantiate(allf + lem, level)
                have = set(allf)
                allf = allf + [x for x in lem + more if x not in have]
                r = self._check(allf, level=0)
                if r: self._stat("linear+lemmas", t0); return True
        if level >= 2:
            prods = self._products(allf)
            if prods:
                r = self._check(allf + prods, level=0)
                if r: self._stat("products", t0); return True
        if level >= 3:
            r = self._check(allf, level=3)
            if r: self._stat("nonlinear", t0); return True
        self._stat("fail", t0)
        return False

    def _focus(self, extra, allf, level):
        if self.busy or level < 2: return extra if extra else allf
        if level == 2: return list(extra) + self.facts[-2:] if extra else self.facts[-3:]
        return allf

    def univ_int(self):
        return any(_pure_int(u[2]) for u in self.univ)

    def _stat(self, k, t0):
        STATS["queries"] += 1
        STATS["z3_s"] += time.time() - t0
        STATS["by"][k] = STATS["by"].get(k, 0) + 1

    def _products(self, forms):
        """pairwise products of non-negative linear facts, kept when their
        monomials already occur (degree-2 Positivstellensatz lemmas)"""
        monos = set()
        for f in forms:
            for p in _polys_in(f):
                for m, c in p.m:
                    if sum(abs(e) for a, e in m) >= 2: monos.add(m)
        if not monos: return []
        atoms = {a for m in monos for a, e in m}
        nn = []
        for f in forms:
            cands = []
            if f.op in ("le", "lt"): cands = [(neg(f.args[0]), None)]
            elif f.op == "eq": continue
            elif f.op == "or" and len(f.args) <= 4:
                # guarded fact: g -> p>=0, kept when the guard is implied linearly
                for i, x in enumerate(f.args):
                    if x.op in ("le", "lt"):
                        rest = OR(*[y for j, y in enumerate(f.args) if j != i])
                        if set(a for a in atoms_of(x.args[0]) if a.sort == "R") & atoms or True:
                            cands.append((neg(x.args[0]), rest))
            for p, g in cands:
                if len(p.m) > 4: continue
                if not any(a in atoms for m, c in p.m for a, e in m): continue
                if any(sum(abs(e) for a, e in m) > 2 for m, c in p.m): continue
                if all(a.sort == "I" for m, c in p.m for a, e in m): continue
                nn.append((p, g))
        uniq = {}
        for p, g in nn: uniq.setdefault((p, g), (p, g))
        nn = list(uniq.values())[:60]
        out = []
        cnt = 0
        for i in range(len(nn)):
            for j in range(i + 1):
                p, gp = nn[i]
                q, gq = nn[j]
                r = mul(p, q)
                ms = [m for m, c in r.m if sum(abs(e) for a, e in m) >= 2]
                if not ms: continue
                unk = [m for m in ms if m not in monos]
                if len(unk) > 0: continue
                f = ge(r, 0)
                gs = [g for g in (gp, gq) if g is not None]
                out.append(OR(f, *gs) if gs else f)
                cnt += 1
                if cnt > 1500: return out
        # also p * positive atom
        return out

    def _check(self, forms, level):
        tr = TRNL if level >= 3 else TRL
        s = z3.Solver()
        s.set("rlimit", 3000000 if level < 3 else 6000000)
        need = set()
        cr, sr = s.ctx.ref(), s.solver
        ass = z3.z3core.Z3_solver_assert
        for f in forms:
            e, sd = tr.top(f)
            ass(cr, sr, e.ast)
            need |= sd
        side = tr.sidelist
        for i in sorted(need): ass(cr, sr, side[i].ast)
        return s.check() == z3.unsat


KEEP = {"first", "n_traps", "n_watermarks", "n_transfers", "n_later_transfers", "offset", "n_image_rows", "n_image_columns", "ratio", "whole_ratio"}      # symbols that name structure, never substituted


def _solvable(p):
    """(atom, term) for an integer equation that fixes a generated symbol"""
    best = None
    for m, c in p.m:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == "var" and m[0][0].sort == "I" \
                and m[0][0].key not in KEEP:
            a = m[0][0]
            rest = p - P(c) * from_atom(a)
            if a in rest.fv or rest.sort != "I": continue
            k = ("#" in a.key, a.id)
            if best is None or k > best[0]: best = (k, a, rest * P(-c))
    return best and best[1:]


def factor(p):
    """(common atoms with exponents, quotient)"""
    if not p.m: return (), p
    common = None
    for m, c in p.m:
        d = dict(m)
        if common is None: common = dict(d)
        else:
            for a in list(common):
                e = d.get(a, 0)
                if e == 0 or (e > 0) != (common[a] > 0): del common[a]
                else: common[a] = min(common[a], e, key=abs)
        if not common: return (), p
    g = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    q = ZERO
    for m, c in p.m:
        d = dict(m)
        for a, e in g:
            d[a] -= e
            if d[a] == 0: del d[a]
        q = add(q, mono_poly(tuple(sorted(d.items(), key=lambda ae: ae[0].id)), c))
    return g, q


_pimemo = {}


def _pure_int(f):
    r = _pimemo.get(f)
    if r is None:
        acc = atoms_of(f)
        r = all(a.kind == "var" and a.sort == "I" for a in acc) and all(p.sort == "I" for p in _polys_in(f)) \
            and not _has_b(f)
        _pimemo[f] = r
    return r


def _has_b(f):
    if f.op in ("bvar", "bapp"): return True
    if f.op in ("and", "or", "not"): return any(_has_b(x) for x in f.args)
    return False


def _polys_in(f):
    if f.op in ("le", "lt", "eq"): yield f.args[0]
    elif f.op in ("and", "or", "not"):
        for x in f.args: yield from _polys_in(x)


class Tr:
    """global, memoised translation; every translated node carries the ids of
    the side conditions (definitions, sign lemmas) it needs"""
    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.v = {}
        self.monos = {}
        self.memo = {}
        self.negs = {}
        self.sidelist = []
        self.need = {}          # key -> set of side ids
        self.stack = [set()]
        self.topmemo = {}

    def top(self, f):
        r = self.topmemo.get(f)
        if r is None:
            self.stack.append(set())
            e = self.form(f)
            r = (e, self.stack.pop())
            self.topmemo[f] = r
        return r

    def side(self, e):
        self.sidelist.append(e)
        self.stack[-1].add(len(self.sidelist) - 1)

    def scoped(self, key, f):
        """run f collecting its side conditions under key; replay them later"""
        nd = self.need.get(key)
        if nd is None:
            self.stack.append(set())
            v = f()
            nd = (v, self.stack.pop())
            self.need[key] = nd
        self.stack[-1] |= nd[1]
        return nd[0]

    def atom(self, a): return self.scoped(('atom', a), lambda: self._atom(a))

    def _atom(self, a):
        z = self.v.get(a)
        if z is None:
            nm = "a%d" % a.id
            z = z3.Int(nm) if a.sort == "I" else z3.Real(nm)
            self.v[a] = z
            if a.kind == "ind":
                c = self.form(a.args[0])
                self.side(z == z3.If(c, z3.IntVal(1), z3.IntVal(0)))
            elif a.kind == "inv":
                p = self.poly(a.args[0])
                self.side(z3.Implies(p > 0, z > 0))
                self.side(z3.Implies(p < 0, z < 0))
                if self.nl:
                    self.side(z3.Implies(p != 0, z * p == 1))
        return z

    def ainv(self, a): return self.scoped(('ainv', a), lambda: self._ainv(a))

    def _ainv(self, a):
        z = self.negs.get(a)
        if z is None:
            x = self.atom(a)
            z = z3.Real("n%d" % a.id)
            self.negs[a] = z
            self.side(z3.Implies(x > 0, z > 0))
            self.side(z3.Implies(x < 0, z < 0))
            if self.nl:
                self.side(z3.Implies(x != 0, z * x == 1))
        return z

    def mono(self, m): return self.scoped(('mono', m), lambda: self._mono(m))

    def _mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        z = self.monos.get(m)
        if z is not None: return z
        inds = [(a, e) for a, e in m if a.kind == "ind"]
        if inds:
            a = inds[0][0]
            rest = tuple((x, e) for x, e in m if x is not a)
            c = self.form(a.args[0])
            self.atom(a)
            rz = self.mono(rest)
            isint = all(x.sort == "I" and e > 0 for x, e in m)
            z = z3.Int("m%d" % (mono_poly(m).id)) if isint else z3.Real("m%d" % (mono_poly(m).id))
            self.monos[m] = z
            self.side(z3.If(c, z == rz, z == 0))
            return z
        if self.nl:
            z = None
            for a, e in m:
                f = self.atom(a) if e > 0 else self.ainv(a)
                if e > 0 and a.sort == "I" and any(x.sort != "I" or ee < 0 for x, ee in m):
                    f = z3.ToReal(f)
                for _ in range(abs(e)):
                    z = f if z is None else z * f
            self.monos[m] = z
            return z
        isint = all(x.sort == "I" and e > 0 for x, e in m)
        if len(m) == 1 and m[0][1] == -1:
            return self.ainv(m[0][0])
        z = z3.Int("m%d" % mono_poly(m).id) if isint else z3.Real("m%d" % mono_poly(m).id)
        self.monos[m] = z
        if len(m) == 1 and m[0][1] % 2 == 0:
            self.side(z >= 0)
        # sign lemma for products of non-negative factors
        fs = [(self.atom(a) if e > 0 else self.ainv(a)) for a, e in m]
        if len(fs) == 2 and m[0][1] in (1, -1) and m[1][1] in (1, -1):
            x, y = fs
            self.side(z3.Implies(z3.And(x >= 0, y >= 0), z >= 0))
            self.side(z3.Implies(z3.Or(x == 0, y == 0), z == 0))
            self.side(z3.Implies(z3.And(x > 0, y > 0), z > 0))
            self.side(z3.Implies(z3.And(x <= 0, y >= 0), z <= 0))
            self.side(z3.Implies(z3.And(x >= 0, y <= 0), z <= 0))
            if isint:
                self.side(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(z >= x, z >= y)))
        else:
            self.side(z3.Implies(z3.And(*[x >= 0 for x in fs]), z >= 0))
            self.side(z3.Implies(z3.Or(*[x == 0 for x in fs]), z == 0))
        return z

    def poly(self, p): return self.scoped(('poly', p), lambda: self._poly(p))

    def _poly(self, p):
        r = self.memo.get(p)
        if r is None:
            isint = _int_like_t(p)
            terms = []
            for m, c in p.m:
                if m == ():
                    terms.append(z3.RealVal(str(c)) if not isint else z3.IntVal(int(c)))
                    continue
                z = self.mono(m)
                if not isint and z.is_int(): z = z3.ToReal(z)
                terms.append(z if c == 1 else (z3.RealVal(str(c)) if not isint else z3.IntVal(int(c))) * z)
            r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self.memo[p] = r
        return r

    def form(self, f): return self.scoped(('form', f), lambda: self._form(f))

    def _form(self, f):
        r = self.memo.get(f)
        if r is None:
            o = f.op
            if o == "true": r = z3.BoolVal(True)
            elif o == "false": r = z3.BoolVal(False)
            elif o == "le": r = self.poly(f.args[0]) <= 0
            elif o == "lt": r = self.poly(f.args[0]) < 0
            elif o == "eq": r = self.poly(f.args[0]) == 0
            elif o == "not": r = z3.Not(self.form(f.args[0]))
            elif o == "and": r = z3.And(*[self.form(x) for x in f.args])
            elif o == "or": r = z3.Or(*[self.form(x) for x in f.args])
            elif o == "bvar": r = z3.Bool("b_" + str(f.id))
            elif o == "bapp": r = z3.Bool("b_" + str(f.id))
            else: raise AssertionError(o)
            self.memo[f] = r
        return r



TRL = Tr(False)
TRNL = Tr(True)


def _int_like_t(p):
    return p.sort == "I" and all(c.denominator == 1 for m, c in p.m)
