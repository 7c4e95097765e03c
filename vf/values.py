"""Symbolic values: scalars are terms/formulas; arrays are layered index maps; objects are immutable records."""
from terms import *


class Unsupported(Exception):
    """a construct outside the verified subset (never a property violation)"""


class Reshape(Unsupported):
    """an array met in a loop as a flat one turns out to have rows"""
    def __init__(self, arr, W):
        Unsupported.__init__(self, "cannot view array as rows")
        self.arr, self.W = arr, W


class Obj:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f):
        self.cls, self.f = cls, f
    def set(self, k, v):
        d = dict(self.f); d[k] = v
        return Obj(self.cls, d)
    def __repr__(self): return "Obj(%s)" % self.cls


class Arr:
    """length: total number of elements; W: row width for flattened 2-D (None: 1-D).
    layers: tuple of (cond, template) over the index atoms (R[,C]); last wins."""
    __slots__ = ("length", "W", "R", "C", "layers", "tag")
    def __init__(self, length, W, R, C, layers, tag=None):
        self.length, self.W, self.R, self.C, self.layers, self.tag = length, W, R, C, tuple(layers), tag
    def __repr__(self):
        return "Arr(%s,W=%s,%s)" % (self.length, self.W, [(c, t) for c, t in self.layers])
    def with_layer(self, cond, tmpl):
        if len(self.layers) > 1 and self.layers[-1][0] is cond: return Arr(self.length, self.W, self.R, self.C, self.layers[:-1] + ((cond, tmpl),), self.tag)
        return Arr(self.length, self.W, self.R, self.C, self.layers + ((cond, tmpl),), self.tag)


def idxvars(two_d):
    r = the_atom(fresh("R", "I"))
    c = the_atom(fresh("C", "I")) if two_d else None
    return r, c


def const_arr(val, n, W=None):
    r, c = idxvars(W is not None)
    return Arr(P(n), W, r, c, [(TRUE, val)])


def fun_arr(f, n, W=None):
    """f(R[,C]) -> template"""
    r, c = idxvars(W is not None)
    t = f(from_atom(r), from_atom(c)) if W is not None else f(from_atom(r))
    return Arr(P(n), W, r, c, [(TRUE, t)])


class SliceSpec:
    def __init__(self, start, size, stride): self.start, self.size, self.stride = start, size, stride


class Ref:
    """lvalue: store root + path"""
    __slots__ = ("root", "path")
    def __init__(self, root, path=()): self.root, self.path = root, tuple(path)
    def __repr__(self): return "Ref(%s,%s)" % (self.root, self.path)
    def field(self, n): return Ref(self.root, self.path + (("f", n),))
    def idx(self, ix): return Ref(self.root, self.path + (("i", tuple(ix)),))
    def slc(self, s): return Ref(self.root, self.path + (("s", s),))


class Str:
    def __init__(self, s): self.s = s
    def __repr__(self): return "Str(%r)" % self.s


class Ptr:
    """an opaque pointer argument; null or not is a symbolic condition"""
    def __init__(self, name): self.name, self.set = name, boolvar("set_" + name)
    def __repr__(self): return "Ptr(%s)" % self.name


class Null:
    pass


NULL = Null()


class Vec:
    """std::vector / plain list of concrete length"""
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)


def vsubst(v, mp, memo=None):
    if memo is None: memo = {}
    if isinstance(v, (Poly, Form)):
        return subst(v, mp, memo)
    k = id(v)
    if k in memo: return memo[k][1]
    if isinstance(v, Obj):
        r = None
        ch = False
        d = {}
        for n, x in v.f.items():
            y = vsubst(x, mp, memo)
            ch = ch or (y is not x)
            d[n] = y
        r = Obj(v.cls, d) if ch else v
    elif isinstance(v, Arr):
        ln = subst(v.length, mp, memo)
        W = None if v.W is None else subst(v.W, mp, memo)
        ch = ln is not v.length or W is not v.W
        L = []
        for c, t in v.layers:
            c2, t2 = subst(c, mp, memo), vsubst(t, mp, memo)
            ch = ch or c2 is not c or t2 is not t
            L.append((c2, t2))
        r = Arr(ln, W, v.R, v.C, L, v.tag) if ch else v
    elif isinstance(v, Vec):
        items = [vsubst(x, mp, memo) for x in v.items]
        r = Vec(items) if any(a is not b for a, b in zip(items, v.items)) else v
    elif isinstance(v, Ref):
        p = []
        for st in v.path:
            if st[0] == "i": p.append(("i", tuple(subst(x, mp, memo) for x in st[1])))
            else: p.append(st)
        r = Ref(v.root, p)
    else:
        r = v
    memo[k] = (v, r)
    return r


def vfv(v):
    if isinstance(v, (Poly, Form)): return v.fv
    if isinstance(v, Obj):
        s = frozenset()
        for x in v.f.values(): s |= vfv(x)
        return s
    if isinstance(v, Arr):
        s = v.length.fv
        for c, t in v.layers: s = s | c.fv | vfv(t)
        return s
    if isinstance(v, Vec):
        s = frozenset()
        for x in v.items: s |= vfv(x)
        return s
    return frozenset()
