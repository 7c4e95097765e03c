"""Verification-condition generator: executes clang's AST of the real code symbolically.

 * straight-line code and branches: exact; undecided branches fork the path
 * calls: by contract when one is registered (precondition is an obligation, the
   body is not looked at), otherwise the callee's own source is executed in place
 * loops: summarised for all iterations by closed forms found from one generic
   iteration (accumulators -> sums, writes -> index maps, exits -> first-exit
   universals), or by a supplied invariant (establish / preserve / use)
"""
from fractions import Fraction
import re
from terms import *
import terms as TT
from values import *
from solver import Env, _pure_int
import cast


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class Oblig:
    __slots__ = ("fn", "line", "kind", "text", "ok", "facts", "path")
    def key(self): return (self.fn, self.line, self.kind, self.text)


def ty(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def tq(n):
    return n.get("type", {}).get("qualType", "")


def strip_type(t):
    t = t.replace("std::", "").replace("const ", "").replace("class ", "").replace("struct ", "").strip()
    t = re.sub(r"\s*[&]+$", "", t).strip()
    return t


def is_int_type(t):
    t = strip_type(t)
    return t in ("int", "unsigned int", "long", "unsigned long", "size_t", "char", "short", "unsigned",
                 "long long", "unsigned long long", "unsigned char", "ptrdiff_t")


def is_float_type(t):
    return strip_type(t) in ("double", "float", "long double")


class Exec:
    def __init__(self, prog, contracts=None, forker=None, verbose=False):
        self.forker = forker
        self.prog = prog
        self.env = Env()
        self.store = {}
        self.obls = []
        self.contracts = contracts or {}
        self.invariants = {}
        self.frames = []
        self.nframe = 0
        self.gstack = []
        self.outs = []
        self.alive = TRUE
        self.merge = 0
        self.nofork = 0
        self.quiet = 0
        self.locals = set()
        self.localapps = set()
        self.fnstack = []
        self.cur_line = None
        self.depth = 0
        self.used = {}
        self.loops = 0
        self.inlined = set()
        self.contracted = set()
        self.assumed = set()
        self.verbose = verbose
        self.globals_init = {}
        self.ghost = 0
        self.nosplit = 0
        self.insimp = 0
        self.exitsyms = []
        self.choices = []
        self.on_throw = None
        self.loopdepth = 0
        self.stats = {"loops": 0, "forks": 0}
        self.pathdesc = []

    # ------------------------------------------------------- obligations
    def oblige(self, form, kind, text, n=None, level=3):
        if self.quiet:
            return True
        o = Oblig()
        o.fn = self.fnstack[-1] if self.fnstack else "?"
        o.line = (cast.line_of(n) if n else None) or self.cur_line
        o.kind, o.text = kind, text
        o.ok = self.env.prove(form, level)
        if not o.ok and self.env.inconsistent(1):
            o.ok = True
        o.facts = None if o.ok else ([str(f) for f in self.env.facts], str(form), [str(u[1:]) for u in self.env.univ])
        o.path = None if o.ok else list(self.pathdesc)
        self.obls.append(o)
        if self.verbose and not o.ok:
            print("FAILED", o.fn, o.line, kind, text, form)
        return o.ok

    # ------------------------------------------------------------ forking
    def is_local(self, f):
        if f.fv & self.locals: return True
        if self.localapps and app_names(f) & self.localapps: return True
        return False

    def branch(self, cond, why=""):
        """True / False / None (None: both, to be merged)"""
        cond = self.simp(cond)
        d = self.env.decide(cond, 1)
        if d is not None: return d
        if not _pure_int(cond):
            d = self.env.decide(cond, 2)
            if d is not None: return d
        if self.is_local(cond) or self.nofork:
            return None
        c = self.choose(2) == 0
        f = cond if c else NOT(cond)
        self.pathdesc.append(showf(f))
        self.assume_global(f)
        if self.env.inconsistent(2):
            raise Infeasible()
        return c

    def choose(self, n):
        """non-deterministic choice among n alternatives, all of them explored"""
        self.stats["forks"] += 1
        return self.forker(self, n)

    def is_local_ph(self, t, loop):
        """does t mention a loop placeholder?"""
        for a in t.fv:
            if isinstance(a.key, str) and a.key.startswith("@"): return True
        return any(nm.startswith("@") for nm in app_names(t))

    def assume_global(self, f):
        self.env.assume_everywhere(f)

    def assume(self, f):
        """assume a fact about fresh symbols, guarded when inside a merged branch"""
        if self.gstack:
            f2 = IMP(AND(*self.gstack), f)
            if not self.is_local(f2):
                self.assume_global(f2)
            self.env.assume(f)
        else:
            if self.env.scopes and not self.is_local(f): self.assume_global(f)
            else: self.env.assume(f)

    def simp(self, t):
        """decide indicator atoms under the current facts"""
        if isinstance(t, (Obj, Arr, Ref, Str, Vec)) or t is None or t is NULL: return t
        if self.env.subs: t = self.env.norm(t)
        if not deep_inds_at(t): return t
        acc = closed_inds(t)
        if not acc: return self.simp_sums(t)
        mp = {}
        for a in sorted(acc, key=lambda a: a.id):
            d = self.env.decide(a.args[0], 1)
            if d is not None: mp[a] = ONE if d else ZERO
        if not mp: return self.simp_sums(t)
        return self.simp(replace(t, mp))

    def simp_sums(self, t):
        """decide indicators on a sum's own index over the range of the sum"""
        if not isinstance(t, Poly) or self.insimp >= 3: return t
        mp = {}
        for m, c in t.m:
            for a, e in m:
                if a.kind != "pfx" or a in mp: continue
                b = the_atom(bv(a.key[0][1]))
                if not any(b in i.fv for i in deep_inds_at(a.args[0])): continue
                x = a.args[1]
                if self.env._order(ZERO, x) is not True: continue
                self.insimp += 1
                k = fresh("z", "I")
                self.env.push()
                self.env.assume(AND(le(0, k), lt(k, x)))
                try:
                    body = subst(a.args[0], {b: k})
                    nb = self.simp(body)
                finally:
                    self.env.pop()
                    self.insimp -= 1
                if nb is not body: mp[a] = pfx(nb, the_atom(k), x)
        if not mp: return t
        return replace(t, mp)

    def simp_form(self, f):
        """drop the parts of a condition that the facts decide"""
        if f.op == "and":
            return AND(*[self.simp_form(x) for x in f.args])
        if f.op == "or":
            return OR(*[self.simp_form(x) for x in f.args])
        d = self.env.decide(f, 1)
        return f if d is None else (TRUE if d else FALSE)

    # ------------------------------------------------------------- sums
    def mk_sum(self, body, v, lo, hi, register=True):
        """Sum_{v in [lo,hi)} body, assuming lo<=hi"""
        lo, hi = P(lo), P(hi)
        if lo is hi: return ZERO
        return self._mk_sum(body, v, lo, hi, register, 0)

    def _mk_sum(self, body, v, lo, hi, register, depth):
        if not deep_inds_at(body):
            if register: self.env.register_sum(body, v, lo, hi)
            return pfx(body, v, hi) - pfx(body, v, lo)
        self.env.push()
        k = from_atom(v)
        self.env.assume(le(lo, k)); self.env.assume(lt(k, hi))
        self.locals.add(v)
        b = self.simp(body)
        inds = deep_inds_at(b)
        self.env.pop()
        bp = None
        seen = set()
        for a in sorted(inds, key=lambda a: a.id):
            if v not in a.fv: continue
            for p in _affine_breaks(a.args[0], v):
                for q in p:
                    if q in seen: continue
                    seen.add(q)
                    if v in q.fv: continue
                    if self.env.decide(le(q, lo), 1) is True or self.env.decide(le(hi, q), 1) is True: continue
                    bp = q
                    break
                if bp is not None: break
            if bp is not None: break
        if bp is None or depth > 40:
            if register: self.env.register_sum(b, v, lo, hi)
            return pfx(b, v, hi) - pfx(b, v, lo)
        # split [lo,hi) at bp
        plain = lambda: self._plain_sum(b, v, lo, hi, register)
        def inside():
            return (self._mk_sum(b, v, lo, bp, register, depth + 1)
                    + self._mk_sum(b, v, bp, hi, register, depth + 1))
        outside = lambda: self._after_break(b, v, lo, hi, register, depth, bp)
        def right():
            c2 = self.branch(le(hi, bp))
            if c2 is True: return outside()
            if c2 is False: return inside()
            if self.nosplit: return plain()
            return self.two(le(hi, bp), outside, inside)
        if self.env.prove(le(lo, bp), 1) and self.env.prove(le(bp, hi), 1): return inside()
        c1 = self.branch(le(bp, lo))
        if c1 is True: return outside()
        if c1 is False: return right()
        if self.nosplit: return plain()
        return self.two(le(bp, lo), outside, right)

    def two(self, c, f, g):
        self.env.push(); self.env.assume(c); x = f(); self.env.pop()
        self.env.push(); self.env.assume(NOT(c)); y = g(); self.env.pop()
        return ite(c, x, y)

    def _plain_sum(self, b, v, lo, hi, register):
        if register: self.env.register_sum(b, v, lo, hi)
        return pfx(b, v, hi) - pfx(b, v, lo)

    def _after_break(self, b, v, lo, hi, register, depth, bp):
        self.env.push()
        k = from_atom(v)
        self.env.assume(le(lo, k)); self.env.assume(lt(k, hi))
        b2 = self.simp(b)
        self.env.pop()
        if b2 is b:
            if register: self.env.register_sum(b, v, lo, hi)
            return pfx(b, v, hi) - pfx(b, v, lo)
        return self._mk_sum(b2, v, lo, hi, register, depth + 1)

    def _ordered(self, q, lo, hi):
        return (self.env.decide(le(q, lo)) is not None and self.env.decide(le(hi, q)) is not None)

    def sum_fn(self, lo, hi, f, name="k"):
        """Sum over [lo,hi) of f(k), for specifications; needs lo<=hi decided"""
        lo, hi = P(lo), P(hi)
        d = self.branch(le(lo, hi))
        if d is False: return ZERO
        k = fresh(name, "I")
        v = the_atom(k)
        self.locals.add(v)
        return self._sum_fn(lo, hi, f, 0)

    def _sum_fn(self, lo, hi, f, depth):
        if lo is hi: return ZERO
        k = fresh("k", "I")
        v = the_atom(k)
        self.locals.add(v)
        self.env.push()
        self.env.assume(le(lo, k)); self.env.assume(lt(k, hi))
        b = self.simp(f(k))
        self.env.pop()
        return self._mk_sum(b, v, lo, hi, True, depth)

    # ------------------------------------------------------ arrays
    def arr_cond(self, cond):
        """decide a layer condition; fork if global and undecided"""
        return self.branch(cond)

    def read(self, arr, idx):
        mp = {arr.R: P(idx[0])}
        if arr.C is not None: mp[arr.C] = P(idx[1])
        out = []
        for cond, tmpl in reversed(arr.layers):
            c = subst(cond, mp)
            if c is TRUE:
                d = True
            elif c is FALSE:
                continue
            else:
                d = self.arr_cond(c)
            if d is False: continue
            out.append((TRUE if d else self.simp_form(self.simp(c)), vsubst(tmpl, mp)))
            if d: break
        else:
            raise Unsupported("read of an uncovered array element")
        v = out[-1][1]
        for c, t in reversed(out[:-1]):
            v = self.val_ite(c, t, v)
        return v

    def val_ite(self, c, a, b):
        if c is TRUE or a is b: return a
        if c is FALSE: return b
        if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
        if isinstance(a, Form) and isinstance(b, Form): return OR(AND(c, a), AND(NOT(c), b))
        if isinstance(a, Form) and isinstance(b, Poly): return ite(c, ind(a), b)
        if isinstance(a, Poly) and isinstance(b, Form): return ite(c, a, ind(b))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            return Obj(a.cls, {k: self.val_ite(c, a.f[k], b.f[k]) if k in b.f else a.f[k] for k in a.f})
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.arr_ite(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.items) == len(b.items):
            return Vec([self.val_ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and a.path == b.path:
            return a
        if a is None or b is None:
            return a if b is None else b
        raise Unsupported("merge of %r and %r" % (type(a), type(b)))

    def arr_ite(self, c, a, b):
        if a.length is not b.length:
            if not self.env.prove(eq(a.length, b.length), 1):
                raise Unsupported("merge of arrays of different length")
        if a.R is b.R and a.C is b.C:
            n = 0
            while n < len(a.layers) and n < len(b.layers) and a.layers[n][0] is b.layers[n][0] \
                    and a.layers[n][1] is b.layers[n][1]:
                n += 1
            if n > 0:
                L = list(a.layers[:n])
                L += [(AND(c, x), t) for x, t in a.layers[n:]]
                L += [(AND(NOT(c), x), t) for x, t in b.layers[n:]]
                return Arr(a.length, a.W, a.R, a.C, L, a.tag)
        if (a.W is None) != (b.W is None):
            if a.W is None: a = self.to2d(a, b.W)
            else: b = self.to2d(b, a.W)
        mp = {b.R: from_atom(a.R)}
        if b.C is not None: mp[b.C] = from_atom(a.C)
        L = [(AND(c, x), t) for x, t in a.layers] + \
            [(AND(NOT(c), subst(x, mp)), vsubst(t, mp)) for x, t in b.layers]
        # make the first layer total
        L = [(TRUE, L[0][1])] + L
        return Arr(a.length, a.W, a.R, a.C, L)

    def to2d(self, arr, W):
        """view a 1-D array whose layers do not depend on the index as rows of width W"""
        if all(arr.R not in c.fv and arr.R not in vfv(t) for c, t in arr.layers):
            r, c = idxvars(True)
            return Arr(arr.length, W, r, c, arr.layers, arr.tag)
        if len(arr.layers) == 1 and arr.layers[0][0] is TRUE and isinstance(arr.layers[0][1], Poly) and arr.W is None:
            a = as_atom(arr.layers[0][1])
            if a is not None and a.kind == "app" and a.key[0].startswith("uninitialised"):
                r, c = idxvars(True)
                return Arr(arr.length, W, r, c, [(TRUE, app(a.key[0], [from_atom(r) * W + from_atom(c)]))], arr.tag)
        raise Reshape(arr, W)

    def decode(self, e, W):
        """e = r*W + c"""
        e, W = P(e), P(W)
        if W is ONE: return e, ZERO
        w = as_atom(W)
        if w is None: raise Unsupported("row width is not a symbol")
        q, rest = ZERO, ZERO
        for mono, c in e.m:
            d = dict(mono)
            if d.get(w, 0) >= 1:
                d[w] -= 1
                if d[w] == 0: del d[w]
                q = q + mono_poly(tuple(sorted(d.items(), key=lambda ae: ae[0].id)), c)
            else:
                rest = rest + mono_poly(mono, c)
        # normalise  c in [0,W)
        d = 0
        if not self.env.prove(AND(le(0, rest), lt(rest, W)), 1):
            if self.env.prove(AND(le(W, rest), lt(rest, 2 * W)), 1): d = 1
            elif self.env.prove(AND(lt(rest, 0), le(-W, rest)), 1): d = -1
            else: self.undecoded = W
        if self.layouts is not None: self.layouts.setdefault(self.accessed, set()).add(d)
        return (q + d, rest - d * W) if d else (q, rest)

    undecoded = None                     # width of the rows among which an index could not be placed
    flats = ()                           # widths of the rows that enclosing loops run through without a loop of their own
    layouts, accessed = None, None       # in a loop: how the index at each access was split into row and column

    def guess_width(self, arr, e):
        cands = None
        for mono, c in arr.length.m:
            s = {a for a, ex in mono if ex >= 1 and a.kind == "var"}
            cands = s if cands is None else cands & s
        for w in sorted(cands or [], key=lambda a: a.id):
            if any(w in dict(m) for m, c in P(e).m): return from_atom(w)
        return None

    def elem_index(self, ref_arr, e, n=None, what=""):
        """index expression -> index tuple, with the bounds obligation"""
        arr = ref_arr
        e = P(e)
        if arr.W is None:
            self.oblige(AND(le(0, e), lt(e, arr.length)), "bounds", "array index in range" + what, n)
            return (e,)
        r, c = self.decode(e, arr.W)
        rows = self.rows(arr)
        self.oblige(AND(le(0, r), lt(r, rows), le(0, c), lt(c, arr.W)), "bounds",
                    "array index in range" + what, n)
        return (r, c)

    def rows(self, arr):
        q, rest = self.decode_exact(arr.length, arr.W)
        return q

    def decode_exact(self, e, W):
        w = as_atom(P(W))
        q, rest = ZERO, ZERO
        for mono, c in P(e).m:
            d = dict(mono)
            if w is not None and d.get(w, 0) >= 1:
                d[w] -= 1
                if d[w] == 0: del d[w]
                q = q + mono_poly(tuple(sorted(d.items(), key=lambda ae: ae[0].id)), c)
            elif W is ONE:
                q = q + mono_poly(mono, c)
            else:
                rest = rest + mono_poly(mono, c)
        if rest.m: raise Unsupported("array length is not a multiple of its row width")
        return q, rest

    # -------------------------------------------------------- store access
    def fit(self, arr, e):
        if arr.W is None and len(arr.length.m) and any(sum(ex for a, ex in m) >= 2 for m, c in arr.length.m):
            w = self.guess_width(arr, e)
            if w is not None: return self.to2d(arr, w)
        return arr

    def load(self, ref):
        if ref.root not in self.store:
            self.init_global(ref.root)
        return self.get_path(self.store[ref.root], ref.path)

    def init_global(self, root):
        raise Unsupported("unknown location %s" % (root,))

    def get_path(self, v, path):
        for st in path:
            if st[0] == "f":
                if isinstance(v, Ref): v = self.load(v)
                if not isinstance(v, Obj):
                    raise Unsupported("field %s of %r" % (st[1], type(v)))
                if st[1] not in v.f:
                    raise Unsupported("field %s of %s is not part of the specified state" % (st[1], v.cls))
                v = v.f[st[1]]
            elif st[0] == "i":
                if isinstance(v, Vec):
                    ix = st[1][0]
                    if not ix.is_const(): raise Unsupported("symbolic vector index")
                    v = v.items[int(ix.const())]
                elif v.tag == "nested" and len(st[1]) == 1:
                    v = self.row_view(v, st[1][0])
                else:
                    v = self.read(v, st[1] if len(st[1]) == (1 if v.W is None else 2) else
                                  self.decode(st[1][0], v.W))
            elif st[0] == "s":
                v = self.read_slice(v, st[1])
            else:
                v = self.selected(v, st[1])
        if isinstance(v, Poly): v = self.simp(v)
        return v

    def selected(self, v, mask):
        """the elements under a mask, in order: cnt(r) of them before index r, the i-th at index sel(i)"""
        if not isinstance(v, Arr) or v.W is not None or mask.W is not None or self.merge: raise Unsupported("reading elements selected by a mask")
        r, _ = idxvars(False)
        cn, sn, n, m = "cnt%d" % r.id, "sel%d" % r.id, v.length, fresh("selected", "I")
        cnt, sel = lambda x: app(cn, [x], "I"), lambda i: app(sn, [i], "I")

        def template(a):
            k = fresh("x", "I")
            self.locals.add(the_atom(k))
            self.env.push(); self.env.assume(AND(le(0, k), lt(k, n)))
            b = self.read(a, (k,))
            self.env.pop()
            return lambda x: subst(b, {the_atom(k): P(x)})
        under_, value = template(mask), template(v)

        def under(x):
            b = under_(x)
            return b if isinstance(b, Form) else NOT(eq(b, 0))
        self.env.assume(AND(le(0, m), le(m, n)))
        self.env.ax[cn] = lambda a: [IMP(eq(a[0], 0), eq(cnt(a[0]), 0)), IMP(AND(le(0, a[0]), le(a[0], n)), AND(le(0, cnt(a[0])), le(cnt(a[0]), m))), IMP(eq(a[0], n), eq(cnt(a[0]), m)),
                                     IMP(AND(le(0, a[0]), lt(a[0], n), under(a[0])), AND(eq(sel(cnt(a[0])), a[0]), lt(cnt(a[0]), m)))]

        def steps(x, y):
            out = []
            for a, b in ((x[0], y[0]), (y[0], x[0])):
                out.append(IMP(AND(le(0, a), le(a, b), le(b, n)), le(cnt(a), cnt(b))))
                out.append(IMP(AND(le(0, a), lt(a, n), eq(b, a + 1)), eq(cnt(b), cnt(a) + ite(under(a), ONE, ZERO))))
            return out
        self.env.pair[cn] = steps
        self.env.ax[sn] = lambda a: [IMP(AND(le(0, a[0]), lt(a[0], m)), AND(le(0, sel(a[0])), lt(sel(a[0]), n), under(sel(a[0]))))]
        self.selections = self.selections + [(v, value, under, cnt, sel, m)]
        if self.on_selection: self.on_selection(self, self.selections[-1])
        return Arr(m, None, r, None, [(TRUE, value(sel(from_atom(r))))])

    selections, on_selection = [], None

    seal_after, sealed = None, {}

    def seal(self, v):
        """the same array with a name for its elements, defined by an axiom (keeps values small)"""
        if self.seal_after is None or not isinstance(v, Arr) or len(v.layers) <= self.seal_after: return v
        own = {v.R, v.C}
        for c, t in v.layers:
            if not isinstance(t, Poly): return v
            for x in (c, t):
                if self.is_local_ph(x, None) or any(a in self.locals and a not in own for a in x.fv) or app_names(x) & self.localapps: return v
        ix = [from_atom(v.R)] + ([from_atom(v.C)] if v.C is not None else [])
        nm = "cell%d" % v.R.id
        while nm in self.sealed: nm += "'"
        self.sealed = dict(self.sealed); self.sealed[nm] = v

        def definition(args):
            mp = {v.R: args[0]}
            if v.C is not None: mp[v.C] = args[1]
            out, above = [], []
            for c, t in reversed(v.layers):
                c = subst(c, mp)
                out.append(IMP(AND(c, *above), eq(app(nm, list(args)), subst(t, mp))))
                above.append(NOT(c))
            return out
        self.env.ax[nm] = definition
        return Arr(v.length, v.W, v.R, v.C, [(TRUE, app(nm, ix))], v.tag)

    def unseal(self, t, keep=(), view=lambda w: w):
        """names of array elements replaced by what they stand for, or by the name a of a value v for (v, a) in keep"""
        def meaning(a):
            v = self.read(self.sealed[a.key[0]], tuple(a.args))
            if keep:
                w = self.unseal(v)
                for x, y in keep:
                    if view(w) is view(x): return y
            return v
        for rnd in range(40):
            hit = [a for a in atoms_of(t) if a.kind == "app" and a.key[0] in self.sealed]
            if not hit: return self.simp(t)
            t = self.simp(replace(t, {a: meaning(a) for a in hit}))
        raise Unsupported("names of array elements")

    def row_view(self, v, r):
        k = fresh("c", "I")
        self.locals.add(the_atom(k))
        self.env.push(); self.env.assume(AND(le(0, k), lt(k, v.W)))
        t = self.read(v, (r, k))
        self.env.pop()
        return Arr(v.W, None, the_atom(k), None, [(TRUE, t)])

    def set_path(self, v, path, new):
        if not path: return new
        st = path[0]
        if st[0] == "f":
            if isinstance(v, Ref):
                self.storeto(Ref(v.root, v.path + tuple(path)), new)
                return v
            if not isinstance(v, Obj): raise Unsupported("field write on %r" % type(v))
            sub = v.f.get(st[1])
            return v.set(st[1], self.set_path(sub, path[1:], new))
        if st[0] == "i":
            if isinstance(v, Vec):
                k = int(st[1][0].const())
                items = list(v.items)
                items[k] = self.set_path(items[k], path[1:], new)
                return Vec(items)
            ix = st[1]
            if v.tag == "nested" and len(ix) == 1:
                row = self.row_view(v, ix[0]) if len(path) > 1 else None
                row = self.set_path(row, path[1:], new) if len(path) > 1 else new
                if not isinstance(row, Arr) or row.W is not None: raise Unsupported("row assignment")
                self.oblige(eq(row.length, v.W), "size", "assigned row has the row's length")
                C = from_atom(v.C)
                self.locals |= {v.R, v.C}
                self.env.push(); self.env.assume(AND(le(0, C), lt(C, v.W)))
                t = self.read(row, (C,))
                self.env.pop()
                return v.with_layer(eq(from_atom(v.R), ix[0]), t)
            if len(ix) != (1 if v.W is None else 2):
                if v.W is None: v = self.fit(v, ix[0])
                if v.W is not None and len(ix) == 1: ix = self.decode(ix[0], v.W)
            if len(path) > 1:
                cur = self.read(v, ix)
                new = self.set_path(cur, path[1:], new)
            cond = eq(from_atom(v.R), ix[0])
            if v.C is not None: cond = AND(cond, eq(from_atom(v.C), ix[1]))
            return v.with_layer(cond, new)
        if st[0] == "s":
            return self.write_slice(v, st[1], new)
        if st[0] == "m" and len(path) == 1 and isinstance(v, Arr):
            return self.write_mask(v, st[1], new)
        raise Unsupported("path")

    def write_mask(self, v, mask, new):
        if not isinstance(new, (Poly, Form)): raise Unsupported("masked assignment of an array")
        if (mask.W is None) != (v.W is None):
            if mask.W is None: mask = self.to2d(mask, v.W)
            else: v = self.to2d(v, mask.W)
        ix = (from_atom(v.R),) if v.W is None else (from_atom(v.R), from_atom(v.C))
        self.locals |= {v.R} | ({v.C} if v.W is not None else set())
        self.env.push()
        if v.W is None: self.env.assume(AND(le(0, ix[0]), lt(ix[0], v.length)))
        else: self.env.assume(AND(le(0, ix[0]), lt(ix[0], self.rows(v)), le(0, ix[1]), lt(ix[1], v.W)))
        c = self.boolv(self.read(mask, ix))
        self.env.pop()
        return v.with_layer(c, new)

    def storeto(self, ref, val):
        if not ref.path:
            self.store[ref.root] = val
            return
        if ref.root not in self.store: self.init_global(ref.root)
        self.store[ref.root] = self.set_path(self.store[ref.root], ref.path, val)

    # slices -----------------------------------------------------------
    def slice_geom(self, arr, s, n=None):
        start, size, stride = P(s.start), P(s.size), P(s.stride)
        arr = self.fit(arr, start) if not start.is_const() else arr
        if arr.W is None and any(sum(ex for a, ex in m) >= 2 for m, c in arr.length.m) and as_atom(size) is not None \
                and any(the_atom(size) in dict(m) for m, c in arr.length.m) and stride is ONE:
            arr = self.to2d(arr, size)
        if arr.W is None and as_atom(stride) is not None and arr.length.m and all(the_atom(stride) in dict(m) for m, c in arr.length.m):
            arr = self.to2d(arr, stride)
        if arr.W is None:
            last = start + (size - 1) * stride
            self.oblige(OR(le(size, 0), AND(le(0, start), lt(start, arr.length), le(0, last), lt(last, arr.length))),
                        "bounds", "slice in range", n)
            return arr, "lin", start, stride, size
        r, c = self.decode(start, arr.W)
        rows = self.rows(arr)
        if stride is ONE and size is arr.W and c is ZERO:
            self.oblige(OR(le(size, 0), AND(le(0, r), lt(r, rows))), "bounds", "slice in range", n)
            return arr, "row", r, None, size
        if stride is ONE:
            q, rest = ZERO, None
            try:
                q, rest = self.decode_exact(size, arr.W)
            except Unsupported:
                q = None
            if q is not None and c is ZERO:
                self.oblige(OR(le(q, 0), AND(le(0, r), le(r + q, rows))), "bounds", "slice in range", n)
                return arr, "rows", r, q, size
            self.oblige(AND(le(0, r), lt(r, rows), le(0, c), le(c + size, arr.W)), "bounds", "slice in range", n)
            return arr, "part", r, c, size
        if stride is arr.W:
            self.oblige(OR(le(size, 0), AND(le(0, r), le(r + size, rows), le(0, c), lt(c, arr.W))), "bounds",
                        "slice in range", n)
            return arr, "col", r, c, size
        raise Unsupported("slice stride")

    def with_index(self, n, f, two=False):
        k = fresh("x", "I")
        v = the_atom(k)
        self.locals.add(v)
        self.env.push()
        self.env.assume(le(0, k)); self.env.assume(lt(k, n))
        try:
            r = f(k)
        finally:
            self.env.pop()
        return v, r

    def read_slice(self, arr, s):
        arr, kind, a, b, size = self.slice_geom(arr, s)
        if kind == "lin":
            v, t = self.with_index(size, lambda k: self.read(arr, (a + k * b,)))
        elif kind == "row":
            v, t = self.with_index(size, lambda k: self.read(arr, (a, k)))
        elif kind == "part":
            v, t = self.with_index(size, lambda k: self.read(arr, (a, b + k)))
        elif kind == "col":
            v, t = self.with_index(size, lambda k: self.read(arr, (a + k, b)))
        elif kind == "rows":
            r, c = idxvars(True)
            self.locals |= {r, c}
            self.env.push()
            self.env.assume(le(0, from_atom(r))); self.env.assume(lt(from_atom(r), b))
            self.env.assume(le(0, from_atom(c))); self.env.assume(lt(from_atom(c), arr.W))
            t = self.read(arr, (a + from_atom(r), from_atom(c)))
            self.env.pop()
            return Arr(size, arr.W, r, c, [(TRUE, t)])
        return Arr(size, None, v, None, [(TRUE, t)])

    def write_slice(self, arr, s, val):
        arr, kind, a, b, size = self.slice_geom(arr, s)
        R, C = from_atom(arr.R), (from_atom(arr.C) if arr.C is not None else None)
        def rd(k, cond):
            if not isinstance(val, Arr): return val
            self.env.push()
            self.env.assume(cond)
            x = self.read(val, (k,))
            self.env.pop()
            return x
        self.locals.add(arr.R)
        if arr.C is not None: self.locals.add(arr.C)
        if isinstance(val, Arr):
            self.oblige(eq(val.length, size), "size", "assigned slice and value have the same length")
        if kind == "lin":
            if b is not ONE: raise Unsupported("strided slice write")
            cond = AND(le(a, R), lt(R, a + size))
            return arr.with_layer(cond, rd(R - a, cond))
        if kind == "row":
            rng = AND(le(0, C), lt(C, size))
            return arr.with_layer(eq(R, a), rd(C, rng))
        if kind == "part":
            rng = AND(le(b, C), lt(C, b + size))
            return arr.with_layer(AND(eq(R, a), rng), rd(C - b, rng))
        if kind == "col":
            cond = AND(eq(C, b), le(a, R), lt(R, a + size))
            return arr.with_layer(cond, rd(R - a, cond))
        if kind == "rows":
            if isinstance(val, Arr):
                if val.W is None:
                    val = self.to2d(val, arr.W)
                cond = AND(le(a, R), lt(R, a + b))
                self.env.push(); self.env.assume(cond)
                self.env.assume(AND(le(0, C), lt(C, arr.W)))
                t = self.read(val, (R - a, C))
                self.env.pop()
                return arr.with_layer(cond, t)
            return arr.with_layer(AND(le(a, R), lt(R, a + b)), val)
        raise Unsupported("slice write")

    # elementwise -------------------------------------------------------
    def lift(self, f, *vals):
        arrs = [v for v in vals if isinstance(v, Arr)]
        if not arrs:
            return f(*vals)
        a0 = arrs[0]
        for a in arrs[1:]:
            self.oblige(eq(a.length, a0.length), "size", "elementwise operands have the same length")
        W = next((a.W for a in arrs if a.W is not None), None)
        if W is not None:
            arrs2 = {id(a): (a if a.W is not None else self.to2d(a, W)) for a in arrs}
            r, c = idxvars(True)
            self.locals |= {r, c}
            self.env.push()
            self.env.assume(AND(le(0, from_atom(c)), lt(from_atom(c), W), le(0, from_atom(r)),
                                lt(from_atom(r), self.rows(arrs2[id(a0)]))))
            t = f(*[self.read(arrs2[id(v)], (from_atom(r), from_atom(c))) if isinstance(v, Arr) else v for v in vals])
            self.env.pop()
            return Arr(a0.length, W, r, c, [(TRUE, t)], "nested" if any(a.tag == "nested" for a in arrs) else None)
        v, t = self.with_index(a0.length, lambda k: self.lift_elem(f, vals, k))
        return Arr(a0.length, None, v, None, [(TRUE, t)])

    def lift_elem(self, f, vals, k):
        return self.lift(f, *[self.read(v, (k,)) if isinstance(v, Arr) else v for v in vals])

    sum_rules = ()

    def sum_by(self, arr, U):
        """the sum of an array whose partial sums are U(0), U(1), ..., by induction; None if they are not"""
        if U is None or not self.env.prove(eq(U(ZERO), 0), 2): return None
        k = fresh("x", "I")
        self.locals.add(the_atom(k))
        self.env.push()
        self.env.assume(AND(le(0, k), lt(k, arr.length)))
        try: ok = self.env.prove(eq(self.read(arr, (k,)), U(k + 1) - U(k)), 2)
        finally: self.env.pop()
        return self.simp(U(arr.length)) if ok else None

    def arr_sum(self, arr):
        if isinstance(arr, Arr) and arr.W is None:
            d = self.branch(le(0, arr.length))
            for U in self.sum_rules:
                r = self.sum_by(arr, U(arr))
                if r is not None: return r
            return self._sum_fn(ZERO, arr.length, lambda k: self.read(arr, (k,)), 0)
        if isinstance(arr, Arr):
            rows = self.rows(arr)
            self.branch(le(0, rows)); self.branch(le(0, arr.W))
            return self._sum_fn(ZERO, rows, lambda r: self._sum_fn(ZERO, arr.W, lambda c: self.read(arr, (r, c)), 0), 0)
        raise Unsupported("sum")


def _affine_breaks(f, v):
    """breakpoints of integer comparisons in v"""
    out = []
    if f.op in ("le", "eq", "lt"):
        p = f.args[0]
        d = dict(p.m)
        c = d.get(((v, 1),))
        if c is not None and abs(c) == 1:
            rest = p - P(c) * from_atom(v)
            if v not in rest.fv:
                if f.op == "le":
                    # c*v + rest <= 0
                    b = (-rest) + 1 if c == 1 else rest      # v<=-rest: break at -rest+1 ; v>=rest
                    out.append([b])
                elif f.op == "eq":
                    b = -rest * c if c == 1 else rest
                    b = P(-c) * rest
                    out.append([b, b + 1])
    elif f.op in ("and", "or", "not"):
        for x in f.args:
            out += _affine_breaks(x, v)
    return out
