"""Hash-consed terms.

Arithmetic terms are polynomials over atoms with rational coefficients, always
in normal form, so that equal-by-ring-laws terms are the same object.  Bounded
sums are kept as oriented prefix functions (Pfx), which makes splitting,
shifting and telescoping of sums automatic.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_atoms = {}
_polys = {}
_forms = {}
_ctr = [0]


class Atom:
    __slots__ = ("id", "kind", "key", "sort", "depth", "fv", "args")
    # kind: var app pfx ind inv
    def __repr__(self):
        return show_atom(self)
    def __lt__(self, o):
        return self.id < o.id


def _mk_atom(kind, key, sort, args, depth, fv):
    k = (kind, key, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.key, a.sort, a.args, a.depth, a.fv = kind, key, sort, args, depth, fv
        _atoms[k] = a
    return a


class Poly:
    __slots__ = ("m", "id", "sort", "depth", "fv", "_h")
    def __repr__(self):
        return show(self)
    def __add__(self, o): return add(self, P(o))
    def __radd__(self, o): return add(P(o), self)
    def __sub__(self, o): return add(self, neg(P(o)))
    def __rsub__(self, o): return add(P(o), neg(self))
    def __mul__(self, o): return mul(self, P(o))
    def __rmul__(self, o): return mul(P(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, n): return power(self, n)
    def is_const(self):
        return not self.m or (len(self.m) == 1 and self.m[0][0] == ())
    def const(self):
        return self.m[0][1] if self.m else Fraction(0)
    def __lt__(self, o): raise TypeError("use lt()")


_E = frozenset()


_mkeys = {}


def _mkey(kv):
    k = _mkeys.get(kv[0])
    if k is None: k = _mkeys[kv[0]] = tuple((a.id, e) for a, e in kv[0])
    return k


def _mk_poly(d):
    items = [(k, v) for k, v in d.items() if v]
    if len(items) > 1: items.sort(key=_mkey)
    items = tuple(items)
    p = _polys.get(items)
    if p is None:
        p = Poly()
        p.m = items
        p.id = len(_polys)
        sort = "I"
        depth = 0
        fv = _E
        for mono, c in items:
            if c.denominator != 1:
                sort = "R"
            for a, e in mono:
                if a.sort != "I" or e < 0:
                    sort = "R"
                if a.depth > depth:
                    depth = a.depth
                if a.fv and not a.fv <= fv:
                    fv = fv | a.fv
        p.sort, p.depth, p.fv = sort, depth, fv
        _polys[items] = p
    return p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mk_poly({((x, 1),): Fraction(1)})
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return _mk_poly({(): Fraction(x)})
    raise TypeError("not a term: %r" % (x,))


ZERO = P(0)
ONE = P(1)


def from_atom(a):
    return _mk_poly({((a, 1),): Fraction(1)})


def add(a, b):
    if not a.m: return b
    if not b.m: return a
    d = dict(a.m)
    for k, v in b.m:
        s = d.get(k, 0) + v
        if s:
            d[k] = s
        else:
            d.pop(k, None)
    return _mk_poly(d)


def neg(a):
    return _mk_poly({k: -v for k, v in a.m})


def scale(a, c):
    return _mk_poly({k: v * c for k, v in a.m})


def _mono_mul(x, y):
    if not x: return y
    if not y: return x
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        if d[a] == 0:
            del d[a]
        elif a.kind == "ind":
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


# inv atoms: leading monomial reduction   inv(p) * lead(p) -> (1 - inv(p)*rest)/lc
_mulmemo = {}


def _ind_clash(mono):
    """product of indicators whose conditions exclude each other"""
    inds = [a for a, e in mono if a.kind == "ind"]
    if len(inds) < 2:
        return None
    return inds


def mul(a, b):
    if a.is_const():
        return scale(b, a.const()) if a.m else a
    if b.is_const():
        return scale(a, b.const()) if b.m else b
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    d = {}
    for ma, ca in a.m:
        for mb, cb in b.m:
            m = _mono_mul(ma, mb)
            d[m] = d.get(m, 0) + ca * cb
    r = _reduce_inv(_mk_poly(d))
    if MONO_RULE[0]: r = _apply_rule(r)
    _mulmemo[k] = r
    return r


MONO_RULE = [None]       # (monomial) -> (atom, replacement Poly) or None: spec-level rewriting


def _apply_rule(p):
    rule = MONO_RULE[0]
    for _ in range(50):
        for mono, c in p.m:
            if len(mono) < 2: continue
            h = rule(mono)
            if h:
                a, rep = h
                d = dict(p.m)
                del d[mono]
                rest = tuple((x, e if x is not a else e - 1) for x, e in mono if x is not a or e != 1)
                p = add(_mk_poly(d), mul(mono_poly(rest, c), rep))
                break
        else:
            return p
    return p


def _reduce_inv(p):
    for _ in range(60):
        hit = None
        for mono, c in p.m:
            for a, e in mono:
                if a.kind == "inv":
                    lead, lc, rest = a.args[1], a.args[2], a.args[3]
                    md = dict(mono)
                    if all(md.get(x, 0) >= ex for x, ex in lead):
                        hit = (mono, c, a, lead, lc, rest)
                        break
            if hit: break
        if not hit:
            return p
        mono, c, a, lead, lc, rest = hit
        md = dict(mono)
        for x, ex in lead:
            md[x] -= ex
            if md[x] == 0: del md[x]
        md_noinv = dict(md)
        md_noinv[a] -= 1
        if md_noinv[a] == 0: del md_noinv[a]
        srt = lambda dd: tuple(sorted(dd.items(), key=lambda ae: ae[0].id))
        base = _mk_poly({srt(md_noinv): Fraction(1)})
        withinv = _mk_poly({srt(md): Fraction(1)})
        # inv*lead = (1 - inv*rest)/lc
        d = dict(p.m)
        del d[mono]
        q = _mk_poly(d)
        r = rest
        prod = {}
        for mr, cr in r.m:
            m2 = _mono_mul(withinv.m[0][0], mr)
            prod[m2] = prod.get(m2, 0) + cr
        p = add(q, add(scale(base, c / lc), scale(_mk_poly(prod), -c / lc)))
    return p


def power(a, n):
    if n < 0:
        return power(inverse(a), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def mono_poly(mono, c=1):
    return _mk_poly({mono: Fraction(c)})


def inverse(p):
    """1/p, for p known to be non-zero (the caller owes that obligation)."""
    if p.is_const():
        return P(1 / p.const())
    if len(p.m) == 1:
        mono, c = p.m[0]
        if all(a.kind not in ("ind", "inv") for a, e in mono):
            return _mk_poly({tuple((a, -e) for a, e in mono): 1 / c})
        if len(mono) == 1 and mono[0][0].kind == "inv" and mono[0][1] == 1:
            return scale(mono[0][0].args[0], 1 / c)
    # make the sign/scale canonical
    lead, lc = max(p.m, key=lambda kv: (sum(abs(e) for a, e in kv[0]), max([a.id for a, e in kv[0]] or [-1]),
                                        tuple((a.id, e) for a, e in kv[0])))
    q = scale(p, 1 / lc)
    rest = _mk_poly({k: v for k, v in q.m if k != lead})
    a = _mk_atom("inv", q, "R", (q, lead, Fraction(1), rest), q.depth, q.fv)
    return scale(from_atom(a), 1 / lc)


# ---------------------------------------------------------------- atoms
def var(name, sort="R"):
    a = _mk_atom("var", name, sort, (), 0, None)
    if a.fv is None:
        a.fv = frozenset([a])
    return from_atom(a)


def fresh(name, sort="R"):
    _ctr[0] += 1
    return var("%s#%d" % (name, _ctr[0]), sort)


def reset_fresh():
    _ctr[0] = 0


def bv(depth):
    return var("\u03b2%d" % depth, "I")


def the_atom(p):
    assert len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1, p
    return p.m[0][0][0][0]


def as_atom(p):
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        return p.m[0][0][0][0]
    return None


_app_norm = {}     # fname -> function(args) -> Poly or None


def app(f, args, sort="R"):
    args = tuple(P(x) for x in args)
    h = _app_norm.get(f.split("!")[0])
    if h:
        r = h(args)
        if r is not None:
            return r
    depth = max([x.depth for x in args] or [0])
    fv = _E
    for x in args:
        fv = fv | x.fv
    return from_atom(_mk_atom("app", (f,) + args, sort, args, depth, fv))


def ind(c):
    """1 if the formula c holds, else 0"""
    if c is TRUE: return ONE
    if c is FALSE: return ZERO
    if c.op == "not":
        return ONE - ind(c.args[0])
    if c.op == "and":
        r = ONE
        for x in c.args:
            r = mul(r, ind(x))
        return r
    if c.op == "or":
        r = ONE
        for x in c.args:
            r = mul(r, ONE - ind(x))
        return ONE - r
    if c.op == "le" and c.args[0].sort == "I":
        # canonical polarity for integer comparisons
        p = c.args[0]
        q = ONE - p
        if _lead_sign(p) < 0:
            return ONE - from_atom(_mk_atom("ind", le0(q), "I", (le0(q),), q.depth, q.fv))
    elif c.op == "le":
        p = c.args[0]
        if _lead_sign(p) < 0:   # p<=0  ==  not(-p<0)
            d = lt0(neg(p))
            return ONE - from_atom(_mk_atom("ind", d, "I", (d,), p.depth, p.fv))
    elif c.op == "lt":
        p = c.args[0]
        if _lead_sign(p) < 0:
            d = le0(neg(p))
            return ONE - from_atom(_mk_atom("ind", d, "I", (d,), p.depth, p.fv))
    return from_atom(_mk_atom("ind", c, "I", (c,), c.depth, c.fv))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return add(b, mul(ind(c), add(a, neg(b))))


# ------------------------------------------------------------- formulas
class Form:
    __slots__ = ("op", "args", "id", "depth", "fv")
    def __repr__(self):
        return showf(self)


def _mkf(op, args):
    k = (op,) + tuple(args)
    f = _forms.get(k)
    if f is None:
        f = Form()
        f.op, f.args, f.id = op, tuple(args), len(_forms)
        depth, fv = 0, _E
        for x in args:
            if isinstance(x, (Form, Poly)):
                depth = max(depth, x.depth)
                fv = fv | x.fv
        f.depth, f.fv = depth, fv
        _forms[k] = f
    return f


TRUE = _mkf("true", ())
FALSE = _mkf("false", ())


def _lead_sign(p):
    # deterministic sign: the coefficient of the largest non-constant monomial
    if p.is_const():
        return 1
    mono, c = max(((m, c) for m, c in p.m if m != ()),
                  key=lambda kv: tuple((a.id, e) for a, e in kv[0]))
    return 1 if c > 0 else -1


def _content(p):
    from math import gcd
    num, den = 0, 1
    for m, c in p.m:
        if m == () : continue
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den) if num else Fraction(1)


def _int_like(p):
    return all(a.sort == "I" and e > 0 for m, c in p.m for a, e in m)


def _memo1(fn):
    tab = {}
    def g(x):
        r = tab.get(x)
        if r is None: r = tab[x] = fn(x)
        return r
    return g


@_memo1
def le0(p):
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    g = _content(p)
    if _int_like(p):
        q = scale(p, 1 / g)
        d = dict(q.m)
        c = d.get((), Fraction(0))
        import math
        d[()] = Fraction(math.ceil(c))
        return _mkf("le", (_mk_poly(d),))
    return _mkf("le", (scale(p, 1 / g),))


@_memo1
def lt0(p):
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    if _int_like(p):
        g = _content(p)
        q = scale(p, 1 / g)
        d = dict(q.m)
        c = d.get((), Fraction(0))
        import math
        d[()] = Fraction(math.floor(c) + 1)
        return _mkf("le", (_mk_poly(d),))
    return _mkf("lt", (scale(p, 1 / _content(p)),))


@_memo1
def eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    g = _content(p)
    q = scale(p, _lead_sign(p) / g)
    if _int_like(q):
        if dict(q.m).get((), Fraction(0)).denominator != 1:
            return FALSE
    # a common factor known only up to zero is left alone
    return _mkf("eq", (q,))


def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return lt0(P(a) - P(b))
def ge(a, b): return le0(P(b) - P(a))
def gt(a, b): return lt0(P(b) - P(a))
def eq(a, b): return eq0(P(a) - P(b))
def ne(a, b): return NOT(eq(a, b))


@_memo1
def NOT(f):
    if f is TRUE: return FALSE
    if f is FALSE: return TRUE
    if f.op == "not": return f.args[0]
    if f.op == "le":
        return lt0(neg(f.args[0]))
    if f.op == "lt":
        return le0(neg(f.args[0]))
    if f.op == "and":
        return OR(*[NOT(x) for x in f.args])
    if f.op == "or":
        return AND(*[NOT(x) for x in f.args])
    return _mkf("not", (f,))


def AND(*fs):
    out = []
    for f in fs:
        if f is FALSE: return FALSE
        if f is TRUE: continue
        if f.op == "and": out += [x for x in f.args if x not in out]
        elif f not in out: out.append(f)
    for f in out:
        if NOT1(f) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mkf("and", tuple(sorted(out, key=lambda x: x.id)))


def NOT1(f):
    if f.op in ("and", "or"): return None
    return NOT(f)


def OR(*fs):
    out = []
    for f in fs:
        if f is TRUE: return TRUE
        if f is FALSE: continue
        if f.op == "or": out += [x for x in f.args if x not in out]
        elif f not in out: out.append(f)
    for f in out:
        if NOT1(f) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mkf("or", tuple(sorted(out, key=lambda x: x.id)))


_impmemo = {}


def IMP(a, b):
    r = _impmemo.get((a, b))
    if r is None: r = _impmemo[(a, b)] = OR(NOT(a), b)
    return r


def IFF(a, b): return AND(IMP(a, b), IMP(b, a))


def boolvar(name):
    f = _mkf("bvar", (name,))
    if not f.fv:
        a = the_atom(var("b:" + name, "I"))
        f.fv = frozenset([a])
    return f


# ------------------------------------------------------- substitution
def subst(t, mp, memo=None):
    """t: Poly or Form; mp: {var atom: Poly} (also {Form bvar: Form} under key ('b',f))"""
    if memo is None:
        memo = {}
    return _subst(t, mp, memo)


def _touch(t, mp):
    fv = t.fv
    if not fv: return False
    for a in mp:
        if a in fv:
            return True
    return False


_gmemo = {}
_pfxmemo = {}
MEMO = [True]
NOMEMO = set()


def clear_memos():
    _gmemo.clear(); _pfxmemo.clear()


def _subst(t, mp, memo):
    if not _touch(t, mp):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if MEMO[0] and len(mp) == 1:
        for a, v in mp.items(): pass
        if a in NOMEMO: return _subst1(t, mp, memo)
        gk = (t, a, v)
        r = _gmemo.get(gk)
        if r is None:
            r = _subst1(t, mp, memo)
            _gmemo[gk] = r
        memo[t] = r
        return r
    return _subst1(t, mp, memo)


def _subst1(t, mp, memo):
    if isinstance(t, Form):
        if t.op == "le": r = le0(_subst(t.args[0], mp, memo))
        elif t.op == "lt": r = lt0(_subst(t.args[0], mp, memo))
        elif t.op == "eq": r = eq0(_subst(t.args[0], mp, memo))
        elif t.op == "not": r = NOT(_subst(t.args[0], mp, memo))
        elif t.op == "and": r = AND(*[_subst(x, mp, memo) for x in t.args])
        elif t.op == "or": r = OR(*[_subst(x, mp, memo) for x in t.args])
        elif t.op == "bvar":
            a = next(iter(t.fv))
            v = mp.get(a)
            r = t if v is None else v
        elif t.op == "bapp":
            r = bapp(t.args[0], [_subst(x, mp, memo) for x in t.args[1:]])
        else: r = t
    else:
        r = ZERO
        for mono, c in t.m:
            pr = P(c)
            for a, e in mono:
                if a.fv and any(x in a.fv for x in mp):
                    pr = mul(pr, power(_subst_atom(a, mp, memo), e))
                else:
                    pr = mul(pr, mono_poly(((a, e),)))
            r = add(r, pr)
    memo[t] = r
    return r


def bapp(f, args):
    return _mkf("bapp", (f,) + tuple(args))


def _subst_atom(a, mp, memo):
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == "var":
        r = mp.get(a)
        if r is None: r = from_atom(a)
    elif a.kind == "app":
        r = app(a.key[0], [_subst(x, mp, memo) for x in a.args], a.sort)
    elif a.kind == "ind":
        r = ind(_subst(a.args[0], mp, memo))
    elif a.kind == "inv":
        r = inverse(_subst(a.args[0], mp, memo))
    elif a.kind == "pfx":
        body, x = a.args
        v = bv(a.depth_own if hasattr(a, "depth_own") else body_bv_depth(a))
        nx = _subst(x, mp, memo)
        va = the_atom(v)
        if any(q in body.fv for q in mp if q is not va):
            k = fresh("s", "I")
            nb = subst(subst(body, {va: k}), mp)
            r = pfx(nb, the_atom(k), nx)
        else:
            r = _pfx_at(a.key[0], body, nx)
    else:
        raise AssertionError(a.kind)
    memo[a] = r
    return r


def body_bv_depth(a):
    return a.key[0][1]


# ----------------------------------------------------------- prefix sums
def _depends(atom_or_poly, v):
    return v in atom_or_poly.fv


def pfx(body, v, x):
    """ Sum_{k in [0,x)} body(k)   (oriented: minus Sum_{[x,0)} when x<0), v = index atom """
    x = P(x)
    if not MEMO[0]: return _pfx0(body, v, x)
    k = (body, v, x)
    r = _pfxmemo.get(k)
    if r is None:
        r = _pfxmemo[k] = _pfx0(body, v, x)
    return r


def _pfx0(body, v, x):
    out = ZERO
    for mono, c in body.m:
        free, dep = [], []
        for a, e in mono:
            (dep if v in a.fv else free).append((a, e))
        coef = mono_poly(tuple(free), c)
        if not dep:
            out = add(out, mul(coef, x))
            continue
        dep = tuple(dep)
        if len(dep) == 1 and dep[0][0] is v and dep[0][1] in (1, 2):
            if dep[0][1] == 1:
                s = scale(mul(x, x - 1), Fraction(1, 2))
            else:
                s = scale(mul(mul(x, x - 1), 2 * x - 1), Fraction(1, 6))
            out = add(out, mul(coef, s))
            continue
        dp = mono_poly(dep)
        out = add(out, mul(coef, _pfx_mono(dp, v, x)))
    return out


def _offsets(t, v, acc, seen):
    """constant offsets c for which an argument of the form v + c (+ other) occurs in t"""
    if t in seen or v not in t.fv:
        return
    seen.add(t)
    if isinstance(t, Form):
        for x in t.args:
            if isinstance(x, (Poly, Form)):
                _offsets(x, v, acc, seen)
        return
    for mono, c in t.m:
        for a, e in mono:
            if a is v or v not in a.fv:
                continue
            if a.kind in ("app",):
                for x in a.args:
                    d = dict(x.m)
                    cv = d.get(((v, 1),))
                    if cv == 1:
                        acc.add(d.get((), Fraction(0)))
                    if v in x.fv:
                        _offsets(x, v, acc, seen)
            elif a.kind == "pfx":
                d = dict(a.args[1].m)
                if d.get(((v, 1),)) == 1:
                    acc.add(d.get((), Fraction(0)))
                _offsets(a.args[0], v, acc, seen)
                _offsets(a.args[1], v, acc, seen)
            elif a.kind == "ind":
                _offsets(a.args[0], v, acc, seen)
                f = a.args[0]
            elif a.kind == "inv":
                _offsets(a.args[0], v, acc, seen)


def _pfx_mono(dp, v, x):
    acc = set()
    _offsets(dp, v, acc, set())
    ints = [c for c in acc if c.denominator == 1]
    if ints:
        d = min(ints)
        if d != 0:
            b0 = subst(dp, {v: from_atom(v) - P(d)})
            if len(b0.m) == 1 and not (b0.m[0][1] == 1 and b0 is dp):
                pass
            return add(pfx_canon(b0, v, x + P(d)), neg(pfx_canon(b0, v, P(d))))
    return pfx_canon(dp, v, x)


def pfx_canon(body, v, x):
    if len(body.m) != 1 or body.m[0][1] != 1 or any(v not in a.fv for a, e in body.m[0][0]):
        # substitution changed the shape: split again (offsets are now canonical)
        out = ZERO
        for mono, c in body.m:
            free = tuple((a, e) for a, e in mono if v not in a.fv)
            dep = tuple((a, e) for a, e in mono if v in a.fv)
            coef = mono_poly(free, c)
            if not dep:
                out = add(out, mul(coef, x)); continue
            if len(dep) == 1 and dep[0][0] is v and dep[0][1] == 1:
                out = add(out, mul(coef, scale(mul(x, x - 1), Fraction(1, 2)))); continue
            dp = mono_poly(dep)
            acc = set(); _offsets(dp, v, acc, set())
            ints = [q for q in acc if q.denominator == 1]
            d = min(ints) if ints else 0
            if d != 0:
                out = add(out, mul(coef, _pfx_mono(dp, v, x)))
            else:
                out = add(out, mul(coef, pfx_canon(dp, v, x)))
        return out
    depth = body.depth + 1
    b = subst(body, {v: bv(depth)})
    return _pfx_at((b, depth), b, x)


def _pfx_at(key, b, x):
    """canonical unfolding: drop the constant part of x"""
    depth = key[1]
    va = the_atom(bv(depth))
    x = P(x)
    d = dict(x.m)
    c = d.get((), Fraction(0))
    if c.denominator == 1 and c != 0 and abs(c) <= 12:
        base = x - P(c)
        out = _pfx_at(key, b, base)
        n = int(c)
        if n > 0:
            for j in range(n):
                out = add(out, subst(b, {va: base + j}))
        else:
            for j in range(n, 0):
                out = add(out, neg(subst(b, {va: base + j})))
        return out
    if not x.m:
        return ZERO
    fv = (b.fv - {va}) | x.fv
    return from_atom(_mk_atom("pfx", (key, x), "R" if b.sort != "I" else "I", (b, x),
                              max(depth, x.depth), fv))


def pfx_body_var(a):
    return the_atom(bv(a.key[0][1]))


# ------------------------------------------------------------- traversal
def atoms_of(t, acc=None, seen=None):
    """all atoms occurring in t outside sum bodies"""
    if acc is None: acc = {}
    if seen is None: seen = set()
    if t in seen: return acc
    seen.add(t)
    if isinstance(t, Form):
        for x in t.args:
            if isinstance(x, (Poly, Form)):
                atoms_of(x, acc, seen)
        return acc
    for mono, c in t.m:
        for a, e in mono:
            if a in acc: continue
            acc[a] = True
            if a.kind in ("app",):
                for x in a.args: atoms_of(x, acc, seen)
            elif a.kind == "pfx":
                atoms_of(a.args[1], acc, seen)
            elif a.kind == "ind":
                atoms_of(a.args[0], acc, seen)
            elif a.kind == "inv":
                atoms_of(a.args[0], acc, seen)
    return acc


_atmemo = {}


def atoms_at(t):
    """atoms_of, memoised (tuple)"""
    r = _atmemo.get(t)
    if r is None:
        r = _atmemo[t] = tuple(atoms_of(t))
    return r


def inds_of(t):
    """indicator atoms at the top level of a polynomial (not in sum bodies / not in args)"""
    return sorted({a for mono, c in t.m for a, e in mono if a.kind == "ind"}, key=lambda a: a.id)


def deep_inds(t, acc=None, seen=None):
    """indicator atoms anywhere, including in sum bodies and arguments"""
    if acc is None: acc = set()
    if seen is None: seen = set()
    if t in seen: return acc
    seen.add(t)
    if isinstance(t, Form):
        for x in t.args:
            if isinstance(x, (Poly, Form)): deep_inds(x, acc, seen)
        return acc
    for mono, c in t.m:
        for a, e in mono:
            if a.kind == "ind":
                acc.add(a); deep_inds(a.args[0], acc, seen)
            elif a.kind == "app":
                for x in a.args: deep_inds(x, acc, seen)
            elif a.kind == "pfx":
                deep_inds(a.args[0], acc, seen); deep_inds(a.args[1], acc, seen)
            elif a.kind == "inv":
                deep_inds(a.args[0], acc, seen)
    return acc


_dimemo = {}


def deep_inds_at(t):
    """deep_inds, memoised"""
    r = _dimemo.get(t)
    if r is None: r = _dimemo[t] = frozenset(deep_inds(t))
    return r


def closed_inds(t):
    """indicator atoms anywhere that do not mention an enclosing sum's index"""
    return [a for a in deep_inds_at(t) if not any(isinstance(x.key, str) and x.key[0] == "\u03b2" for x in a.fv)]


# ------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == "var": return a.key
    if a.kind == "app": return "%s(%s)" % (a.key[0], ",".join(map(show, a.args)))
    if a.kind == "ind": return "[%s]" % showf(a.args[0])
    if a.kind == "inv": return "1/(%s)" % show(a.args[0])
    if a.kind == "pfx": return "\u03a3{%s<%s}(%s)" % ("\u03b2%d" % a.key[0][1], show(a.args[1]), show(a.args[0]))
    return "?"


def show(p):
    if not p.m: return "0"
    out = []
    for mono, c in p.m:
        s = "*".join(show_atom(a) + ("" if e == 1 else "^%d" % e) for a, e in mono)
        if not s: s = str(c)
        elif c == 1: pass
        elif c == -1: s = "-" + s
        else: s = "%s*%s" % (c, s)
        out.append(s)
    r = out[0]
    for s in out[1:]:
        r += (" - " + s[1:]) if s.startswith("-") else " + " + s
    return r


def showf(f):
    if f.op in ("true", "false"): return f.op
    if f.op == "le": return show(f.args[0]) + "<=0"
    if f.op == "lt": return show(f.args[0]) + "<0"
    if f.op == "eq": return show(f.args[0]) + "==0"
    if f.op == "not": return "!(%s)" % showf(f.args[0])
    if f.op == "and": return "(" + " & ".join(map(showf, f.args)) + ")"
    if f.op == "or": return "(" + " | ".join(map(showf, f.args)) + ")"
    if f.op == "bvar": return str(f.args[0])
    if f.op == "bapp": return "%s(%s)" % (f.args[0], ",".join(map(str, f.args[1:])))
    return f.op


def replace(t, mp, memo=None):
    """replace whole atoms (of any kind) outside sum bodies"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if isinstance(t, Form):
        if t.op == "le": r = le0(replace(t.args[0], mp, memo))
        elif t.op == "lt": r = lt0(replace(t.args[0], mp, memo))
        elif t.op == "eq": r = eq0(replace(t.args[0], mp, memo))
        elif t.op == "not": r = NOT(replace(t.args[0], mp, memo))
        elif t.op == "and": r = AND(*[replace(x, mp, memo) for x in t.args])
        elif t.op == "or": r = OR(*[replace(x, mp, memo) for x in t.args])
        else: r = t
    else:
        r = ZERO
        for mono, c in t.m:
            pr = P(c)
            for a, e in mono:
                pr = mul(pr, power(_replace_atom(a, mp, memo), e))
            r = add(r, pr)
    memo[t] = r
    return r


def _replace_atom(a, mp, memo):
    if a in mp: return mp[a]
    r = memo.get(a)
    if r is not None: return r
    if a.kind == "app":
        r = app(a.key[0], [replace(x, mp, memo) for x in a.args], a.sort)
    elif a.kind == "ind":
        r = ind(replace(a.args[0], mp, memo))
    elif a.kind == "inv":
        r = inverse(replace(a.args[0], mp, memo))
    elif a.kind == "pfx":
        nx = replace(a.args[1], mp, memo)
        if any(q in mp for q in deep_inds_at(a.args[0])):
            k = fresh("s", "I")
            nb = replace(subst(a.args[0], {the_atom(bv(body_bv_depth(a))): k}), mp)
            r = pfx(nb, the_atom(k), nx)
        else:
            r = _pfx_at(a.key[0], a.args[0], nx)
    else:
        r = from_atom(a)
    memo[a] = r
    return r


def app_names(t, acc=None, seen=None):
    """names of all applications anywhere in t"""
    if acc is None: acc = set()
    if seen is None: seen = set()
    if t in seen: return acc
    seen.add(t)
    if isinstance(t, Form):
        for x in t.args:
            if isinstance(x, (Poly, Form)): app_names(x, acc, seen)
        return acc
    for mono, c in t.m:
        for a, e in mono:
            if a.kind == "app":
                acc.add(a.key[0])
                for x in a.args: app_names(x, acc, seen)
            elif a.kind in ("ind", "inv"):
                app_names(a.args[0], acc, seen)
            elif a.kind == "pfx":
                app_names(a.args[0], acc, seen); app_names(a.args[1], acc, seen)
    return acc


def squares(p):
    """the part of a polynomial that is a quadratic form in its atoms, if that form is positive
    semi-definite (L D L^T with D >= 0, so a sum of squares) and the rest is even powers with
    positive coefficients; None otherwise"""
    deg2, alone = {}, {}
    for m, c in p.m:
        if sum(e for a, e in m) != 2 or any(a.kind in ("ind", "inv") for a, e in m): return None
        if len(m) == 1: deg2[(m[0][0], m[0][0])] = c
        else: deg2[(m[0][0], m[1][0])] = c / 2; deg2[(m[1][0], m[0][0])] = c / 2
    rows = sorted({a for a, b in deg2}, key=lambda a: a.id)
    mixed = [a for a in rows if any(b is not a and (a, b) in deg2 for b in rows)]
    if any(deg2.get((a, a), 0) < 0 for a in rows): return None
    if not mixed: return None
    M = [[Fraction(deg2.get((a, b), 0)) for b in mixed] for a in mixed]
    n = len(mixed)
    for i in range(n):
        d = M[i][i]
        if d < 0: return None
        if d == 0:
            if any(M[i][j] != 0 for j in range(i, n)): return None
            continue
        for j in range(i + 1, n):
            f = M[i][j] / d
            if f:
                for k in range(i, n): M[j][k] -= f * M[i][k]
    r = ZERO
    for m, c in p.m:
        if all(a in mixed for a, e in m): r = r + mono_poly(m, c)
    return r
