"""Contracts of the array helpers (P20)."""
from contracts.base import *


def shape(ex, minrows=1, mincols=0):
    R, C = I("n_rows"), I("n_cols")
    ex.env.assume(AND(ge(R, minrows), ge(C, mincols)))
    return R, C


def clamp(ex):
    v, lo, hi = Rv("value"), Rv("low"), Rv("high")
    ex.env.assume(le(lo, hi))
    r = call(ex, None, "clamp", None, [v, lo, hi])
    with at(ex, "clamp"):
        ex.oblige(AND(le(lo, r), le(r, hi)), "post", "the result lies in the interval")
        ex.oblige(IMP(AND(le(lo, v), le(v, hi)), eq(r, v)), "post", "a value in the interval is returned as it is")
        ex.oblige(IMP(lt(v, lo), eq(r, lo)), "post", "a value below gives the lower limit")
        ex.oblige(IMP(gt(v, hi), eq(r, hi)), "post", "a value above gives the upper limit")


def transpose(ex):
    R, C = shape(ex)
    m = image("X", R, C)
    ref = put(ex, "image", m)
    t = call(ex, None, "transpose", None, [ref])
    with at(ex, "transpose"):
        ex.oblige(TRUE if ex.same(ex.store[ref.root], m) else FALSE, "frame", "the input is not changed")
        ex.oblige(eq(nrows(ex, t), C), "post", "as many rows as the input has columns")
        if not ex.branch(ge(C, 1)): return
        i, j = element(ex, R, "row"), element(ex, C, "col")
        ex.oblige(eq(ncols(ex, t, j), R), "post", "as many columns as the input has rows")
        ex.oblige(eq(pixel(ex, t, j, i), app("X", [i, j])), "post", "pixel (row, col) moves to (col, row)")
    b = call(ex, None, "transpose", None, [put(ex, "transposed", t)])
    with at(ex, "transpose"):
        ex.oblige(eq(nrows(ex, b), R), "post", "transposing twice gives the number of rows back")
        ex.oblige(eq(ncols(ex, b, i), C), "post", "transposing twice gives the number of columns back")
        ex.oblige(eq(pixel(ex, b, i, j), app("X", [i, j])), "post", "transposing twice gives every pixel back")


def flatten(ex):
    R, C = shape(ex)
    m = image("X", R, C)
    ref = put(ex, "image", m)
    v = call(ex, None, "flatten", None, [ref])
    with at(ex, "flatten"):
        ex.oblige(TRUE if ex.same(ex.store[ref.root], m) else FALSE, "frame", "the input is not changed")
        ex.oblige(eq(v.length, R * C), "post", "every pixel is listed once")
        if not ex.branch(ge(C, 1)): return
        i, j = element(ex, R, "row"), element(ex, C, "col")
        w = ex.fit(v, i * C + j)
        ex.oblige(eq(ex.read(w, (i, j) if w.W is not None else (i * C + j,)), app("X", [i, j])), "post", "pixels come in row order")


def arange(ex):
    a, b, s = Rv("start"), Rv("stop"), Rv("step")
    ex.env.assume(gt(s, 0))
    v = call(ex, None, "arange", None, [a, b, s])
    n = v.length
    with at(ex, "arange"):
        ex.oblige(IMP(ge(n, 1), lt(a + (n - 1) * s, b)), "post", "every value is below stop")
        ex.oblige(ge(a + n * s, b), "post", "no value below stop is left out")
        if not ex.branch(ge(n, 1)): return
        k = element(ex, n, "k")
        ex.oblige(eq(ex.read(v, (k,)), a + k * s), "post", "value k is start + k * step")

