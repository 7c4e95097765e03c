"""Contract of the read-noise estimator (P22)."""
from contracts.base import *


def estimate(smooth, height=None, width=None):
    """output pixel = documented function of the 3 x 3 neighbourhood; everything else untouched"""
    def go(ex):
        ex.by_inverse, ex.seal_after, ex.races = True, 3, True
        axioms(ex)
        R, C = I("n_image_rows"), I("n_image_columns")
        s, f = Rv("sigma"), Rv("fraction")
        ex.env.assume(AND(ge(R, 3) if height is None else AND(ge(R, height), le(R, height)), ge(C, 3) if width is None else AND(ge(C, width), le(C, width)), gt(s, 0), ge(f, 0)))
        # the two images: any output image and any difference, so any input image
        d = lambda i, j: app("d", [i, j])
        o = lambda i, j: app("o", [i, j])
        pic = lambda name, g: put(ex, name, fun_arr(g, R * C, C))
        a, b, out = pic("imageIn", lambda i, j: o(i, j) + d(i, j)), pic("imageOut", o), pic("output", lambda i, j: app("before", [i, j]))
        A, B = ex.store[a.root], ex.store[b.root]
        r = call(ex, None, "determine_read_noise_model", None, [a, b, R, C, s, f, P(1 if smooth else 0), out])
        with at(ex, "determine_read_noise_model"):
            ex.oblige(TRUE if ex.same(ex.store[a.root], A) and ex.same(ex.store[b.root], B) else FALSE, "frame", "the images are not changed")
            i, j = pick(ex, R, "row"), pick(ex, C, "col")
            if height is not None: i = P(0) if ex.branch(eq(i, 0)) else P(1)
            if width is not None: j = P(0) if ex.branch(eq(j, 0)) else P(1)
            m = s * f
            low = lambda x, y: ite(le(x, y), x, y)
            clip = lambda x, lo, hi: -low(-low(x, hi), -P(lo))
            rows = [x for x, there in ((i - 1, ex.branch(ge(i, 1))), (i, True), (i + 1, ex.branch(lt(i + 1, R)))) if there]
            cols = [x for x, there in ((j - 1, ex.branch(ge(j, 1))), (j, True), (j + 1, ex.branch(lt(j + 1, C)))) if there]
            avg = sum((d(x, y) for x in rows for y in cols), ZERO) * P(Fraction(1, len(rows) * len(cols)))
            x, mean = d(i, j), Rv("average")
            v = ex.quot(clip(x, P(-1), P(1)) * x * x, x * x + 4 * s * s)
            v = v + ex.quot(clip(mean, -m, m) * mean * mean, mean * mean + 18 * s * s)
            near = [(i - 1, j), (i + 1, j)] + ([(i, j - 1), (i, j + 1)] if smooth else [])
            for p, q in near:
                if (p in rows) and (q in cols):
                    g = o(p, q) - o(i, j)
                    v = v + ex.quot(clip(g, -m, m) * 4 * s * s, g * g + 4 * s * s)
            v = v * P(Fraction(1, 6 if smooth else 4))
            two = {the_atom(n): P(2) for n, size in ((R, height), (C, width)) if size is not None}
            view = lambda t: ex.simp(subst(t, two)) if two else t
            got = ex.unseal(ex.read(ex.store[out.root], (i, j)), [(ex.simp(avg), mean)], view)
            agree(ex, view(got), view(ex.simp(v)), "post", "every output pixel is the documented function of its neighbourhood")
    return go


def agree(ex, a, b, kind, text):
    """a = b, for the factor of every reciprocal by itself, and case by case if need be"""
    p = a - b
    parts = {}
    for m, c in p.m:
        key = tuple((x, e) for x, e in m if x.kind == "app" and x.key[0] == "div")
        parts.setdefault(key, []).append((tuple((x, e) for x, e in m if (x, e) not in key), c))
    fs = [sum((mono_poly(m, c) for m, c in ms), ZERO) for ms in parts.values()]
    for f in fs:
        for rnd in range(4):
            if f is ZERO or ex.env.prove(eq(f, 0), 2): break
            g = next((x.args[0] for x in sorted(atoms_of(f), key=lambda x: x.id) if x.kind == "ind" and x.args[0].op in ("le", "lt", "eq") and ex.env.decide(x.args[0], 2) is None), None)
            if g is None: break
            q = g.args[0]
            if ex.branch(lt(q, 0)) is False: ex.branch(eq(q, 0))
            f = ex.simp(f)
        ex.oblige(eq(f, 0), kind, text)
    if not fs: ex.oblige(TRUE, kind, text)
