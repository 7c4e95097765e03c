"""Shared pieces of the contract modules: calling a function under contract, axioms of the
library functions and of division, small specification helpers."""
from terms import *
import terms as TT
from values import *
from exec import Infeasible, PathEnd
import cast

I = lambda n: var(n, "I")
Rv = lambda n: var(n, "R")


def call(ex, cls, name, this, vals, nargs=None):
    """run the body of cls::name (from the current source) on argument values"""
    if cls:
        r = ex.prog.method(cls, name, len(vals) if nargs is None else nargs)
        if r is None: raise Unsupported("no definition of %s::%s" % (cls, name))
        d, own = r
    else:
        d, own = ex.prog.function(name, len(vals) if nargs is None else nargs), None
    ps = cast.params(d)
    binds = []
    for p, v in zip(ps, vals):
        pt = p["type"]["qualType"].rstrip()
        if pt.endswith("&") and not pt.endswith("&&"):
            binds.append((p, ("ref", v if isinstance(v, Ref) else ex.temp(v))))
        else: binds.append((p, ("val", v)))
    key = (own + "::" if own else "") + name
    ex.inlined.add(key)
    return ex.call_body(d, own, this, binds, key)


def put(ex, name, v):
    """a named location holding v"""
    root = ("spec", name)
    ex.store[root] = v
    return Ref(root)


def at(ex, fn):
    """report the following obligations under this function's name"""
    class C:
        def __enter__(s): ex.fnstack.append(fn)
        def __exit__(s, *a): ex.fnstack.pop()
    return C()


def ax_div(args):
    """q = a / b for b != 0"""
    a, b = args
    q = app("div", [a, b])
    return [IMP(ne(b, 0), eq(q * b, a)),
            IMP(AND(gt(b, 0), ge(a, 0)), ge(q, 0)), IMP(AND(gt(b, 0), le(a, 0)), le(q, 0)),
            IMP(AND(gt(b, 0), le(a, b)), le(q, 1)), IMP(AND(gt(b, 0), ge(a, b)), ge(q, 1)),
            IMP(AND(gt(b, 0), gt(a, 0)), gt(q, 0)), IMP(AND(gt(b, 0), lt(a, b)), lt(q, 1))]


def pair_div(x, y):
    if x[1] is not y[1]: return []
    q, r = app("div", list(x)), app("div", list(y))
    return [IMP(AND(gt(x[1], 0), le(x[0], y[0])), le(q, r))]


def ax_pow(args):
    b, e = args
    r = app("pow", [b, e])
    return [IMP(ge(b, 0), ge(r, 0)), IMP(gt(b, 0), gt(r, 0)), IMP(AND(ge(b, 0), le(b, 1), ge(e, 0)), le(r, 1)),
            IMP(eq(b, 1), eq(r, 1)), IMP(AND(eq(b, 0), gt(e, 0)), eq(r, 0)), IMP(AND(ge(b, 1), ge(e, 0)), ge(r, 1)),
            IMP(eq(e, 0), eq(r, 1)), IMP(eq(e, 1), eq(r, b))]


def pair_pow(x, y):
    out = []
    for a, b in ((x, y), (y, x)):
        if a[1] is b[1]:
            out.append(IMP(AND(ge(a[0], 0), le(a[0], b[0]), ge(a[1], 0)), le(app("pow", list(a)), app("pow", list(b)))))
    return out


def ax_exp(args):
    x = args[0]; r = app("exp", [x])
    return [gt(r, 0), IMP(le(x, 0), le(r, 1)), IMP(lt(x, 0), lt(r, 1)), IMP(ge(x, 0), ge(r, 1)), IMP(eq(x, 0), eq(r, 1)), ge(r, x + 1)]


def pair_exp(x, y):
    return [IMP(le(x[0], y[0]), le(app("exp", list(x)), app("exp", list(y)))),
            IMP(lt(x[0], y[0]), lt(app("exp", list(x)), app("exp", list(y))))]


def axioms(ex):
    ex.env.ax.update({"div": ax_div, "pow": ax_pow, "exp": ax_exp})
    ex.env.pair.update({"div": pair_div, "pow": pair_pow, "exp": pair_exp})


def image(name, R, C):
    """an arbitrary rectangular image: R rows of C pixels"""
    r, c = idxvars(True)
    return Arr(R * C, C, r, c, [(TRUE, app(name, [from_atom(r), from_atom(c)]))], "nested")


def element(ex, n, name="i"):
    """an arbitrary index in [0, n)"""
    i = fresh(name, "I")
    ex.locals.add(the_atom(i))
    ex.env.assume(AND(le(0, i), lt(i, n)))
    return i


def pick(ex, n, name="i"):
    """an arbitrary index in [0, n), on which the path may split"""
    i = fresh(name, "I")
    ex.assume(AND(le(0, i), lt(i, n)))
    if ex.env.inconsistent(2): raise Infeasible()
    return i


def each(ex, n, check, name="i"):
    """check(i) for an arbitrary i in [0, n), on a path of its own"""
    if ex.choose(2) == 0:
        check(pick(ex, n, name))
        raise PathEnd()


def nrows(ex, a):
    if not isinstance(a, Arr): raise Unsupported("not an image")
    return ex.rows(a) if a.tag == "nested" else a.length


def ncols(ex, a, i):
    if a.tag == "nested": return a.W
    return ex.read(a, (i,)).length


def pixel(ex, a, i, j):
    if a.tag == "nested": return ex.read(a, (i, j))
    return ex.read(ex.read(a, (i,)), (j,))


def both(ex, *fs):
    """products of non-negative factors are not negative (an instance of real arithmetic, discharged on the spot)"""
    for a, b in fs:
        f = IMP(AND(ge(a, 0), ge(b, 0)), ge(P(a) * P(b), 0))
        ex.env.assume(f)


def cancel(ex, e, a, b):
    """e a = e b and e > 0 give a = b"""
    ex.env.assume(IMP(AND(gt(e, 0), eq(P(e) * a, P(e) * b)), eq(a, b)))


def telescopes(ex, n, term, U, total, text, sides=None):
    """Sum_{r<n} term(r) = total, by induction over r with the partial sum U(r)"""
    ex.oblige(eq(U(ZERO), 0), "post", text + " (no pass)")
    if sides: sides(n)
    ex.oblige(eq(U(n), total), "post", text + " (all passes)")

    def step(r):
        if sides: sides(r)
        ex.oblige(eq(term(r), U(r + 1) - U(r)), "post", text + " (one more pass)")
    each(ex, n, step, "pass")
