"""Loops with a written invariant: establish, preserve, use.

The invariant is given as the exact value of some locations at the start of iteration k
(`at`), of which one recognises the variables by role (their value on entry, the field they
are), not by name; every other location the loop modifies is arbitrary at the start of an
iteration, except counters (changed by one in each iteration, in one place only)."""
from terms import *
from values import *
import cast


def children(n):
    return [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]


def strip(n):
    while n.get("kind") in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr",
                            "CStyleCastExpr", "CXXFunctionalCastExpr") and children(n):
        n = children(n)[0]
    return n


def root_of(n):
    """declaration id or field name that an lvalue expression is part of"""
    while True:
        n = strip(n)
        k = n.get("kind")
        if k == "DeclRefExpr": return ("v", n["referencedDecl"]["id"])
        if k == "MemberExpr":
            b = strip(children(n)[0])
            if b.get("kind") == "CXXThisExpr": return ("f", n["name"])
            n = b; continue
        if k in ("ArraySubscriptExpr", "UnaryOperator"): n = children(n)[0]; continue
        if k == "CXXOperatorCallExpr" and len(children(n)) > 1: n = children(n)[1]; continue
        if k == "CXXMemberCallExpr": n = children(n)[0]; continue
        return None


class Mods:
    """locations a piece of code may modify: ids of locals, names of fields of this"""
    def __init__(self, ex):
        self.ex, self.ids, self.fields, self.seen = ex, {}, set(), set()

    def hit(self, n, how=None):
        r = root_of(n)
        if r is None: return
        if r[0] == "f": self.fields.add(r[1])
        else: self.ids.setdefault(r[1], []).append(how)

    def scan(self, n, local=True):
        k = n.get("kind")
        ch = children(n)
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">="):
            self.hit(ch[0], n)
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"): self.hit(ch[0], n)
        elif k == "CXXOperatorCallExpr":
            nm = strip(ch[0]); nm = (nm.get("referencedDecl") or {}).get("name", "")
            if nm.endswith("=") and nm not in ("operator==", "operator!=", "operator<=", "operator>="): self.hit(ch[1], n)
            elif nm in ("operator++", "operator--"): self.hit(ch[1], n)
        elif k == "CXXMemberCallExpr":
            me = strip(ch[0])
            nm = me.get("name")
            base = strip(children(me)[0]) if children(me) else None
            if base is not None and base.get("kind") == "CXXThisExpr": self.call(nm)
            elif nm not in ("size", "sum", "min", "max", "data", "empty", "length", "c_str") and base is not None: self.hit(base, n)
            self.args(ch[1:], me)
        elif k == "CallExpr":
            self.args(ch[1:], strip(ch[0]))
        for c in ch: self.scan(c, local)

    def args(self, args, callee):
        for a in args:
            if a.get("kind") in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr"): self.hit(a, "argument")
            if a.get("kind") == "UnaryOperator" and a.get("opcode") == "&": self.hit(children(a)[0], "argument")

    def call(self, name):
        if name in self.seen: return
        self.seen.add(name)
        fr = self.ex.fr
        cls = self.ex.load(fr.this).cls if fr.this is not None else None
        if cls is None: return
        for n in range(0, 12):
            r = self.ex.prog.method(cls, name, n)
            if r is not None and cast.body(r[0]) is not None: self.scan(cast.body(r[0]), False)


class ByInvariant:
    def __init__(self, where, at, after=None, extra=None, test=None, nested=False):
        """where: function; at(ex, k, entry) -> {Ref: value}; after: the same for the end of
        iteration k, if not at(k + 1); extra(ex, k): further formula; entry: {Ref: value on entry} of what the loop modifies"""
        self.where, self.at, self.after, self.extra, self.test, self.nested = where, at, after, extra, test, nested

    def matches(self, ex, n):
        if not ex.fnstack or ex.fnstack[-1] != self.where or ex.merge: return False
        active = getattr(ex, "in_inv", ())
        if self in active or bool(active) != self.nested: return False
        return self.test is None or self.test(ex, n)

    def run(self, ex, n, cond_fn, body_fn, inc_fn):
        from exec import PathEnd, Infeasible
        m = Mods(ex)
        m.scan(n)
        fid = ex.fr.id
        entry = {}
        counters = {}
        body = children(n)[-1]
        direct = set(id(strip(c)) for c in (children(body) if body.get("kind") == "CompoundStmt" else [body]))
        cont = self.has(body, "ContinueStmt")
        if n.get("kind") == "ForStmt":
            raw = (n["inner"] + [{}] * 5)[:5]
            inc = raw[3]
            stack = [inc] if inc.get("kind") else []
            while stack:
                c = strip(stack.pop()); direct.add(id(c))
                if c.get("kind") == "BinaryOperator" and c.get("opcode") == ",": stack += children(c)
            incs = True
        for i, how in m.ids.items():
            if i in ex.fr.alias: ref = ex.fr.alias[i]
            else:
                if ("v", fid, i) not in ex.store: continue
                ref = Ref(("v", fid, i))
            try: v = ex.load(ref)
            except Unsupported: v = None
            entry[(ref.root, ref.path)] = (ref, v)
            if len(how) == 1 and isinstance(how[0], dict) and how[0].get("kind") == "UnaryOperator" and isinstance(v, Poly) and v.sort == "I" \
                    and id(how[0]) in direct and not (cont and n.get("kind") != "ForStmt"):
                counters[(ref.root, ref.path)] = 1 if how[0]["opcode"] == "++" else -1
        if ex.fr.this is not None:
            o = ex.load(ex.fr.this)
            for f in sorted(m.fields):
                if isinstance(o, Obj) and f in o.f:
                    ref = ex.fr.this.field(f)
                    entry[(ref.root, ref.path)] = (ref, o.f[f])
        roots = set(ex.store)
        ex.inv_counters = set(counters)
        spec0 = self.at(ex, ZERO, entry)
        for ref, v in spec0.items(): self.equal(ex, ref, v, "invariant holds on entry")
        if self.extra: ex.oblige(self.extra(ex, ZERO), "inv", "invariant holds on entry")
        pres = ex.choose(2) == 0
        k = fresh("k", "I")
        ex.assume(ge(k, 0))
        if self.extra: ex.assume(self.extra(ex, k))
        fixed = {}
        spec = self.at(ex, k, entry)
        keys = {(r.root, r.path) for r in spec}
        for key, (ref, v) in entry.items():
            if key in keys: continue
            if key in counters: ex.storeto(ref, v + k * counters[key])
            else: ex.storeto(ref, self.havoc(v))
        for ref, v in spec.items(): ex.storeto(ref, v)
        S = dict(ex.store)
        c = cond_fn()
        if not pres:
            ex.assume(NOT(c))
            if ex.env.inconsistent(2): raise Infeasible()
            return
        ex.assume(c)
        if ex.env.inconsistent(2): raise Infeasible()
        active = getattr(ex, "in_inv", ())
        ex.in_inv = active + (self,)
        o0 = len(ex.outs)
        body_fn()
        ex.in_inv = active
        new = ex.outs[o0:]
        if ex.alive is FALSE:
            if len(new) != 1: raise Unsupported("exits of a loop with a written invariant")
            if new[0][1] == "break":
                ex.outs.pop(); ex.alive = TRUE
                return                       # left the loop: the path goes on behind it
            if new[0][1] == "continue":
                ex.outs.pop(); ex.alive = TRUE
            else: return
        elif new: raise Unsupported("exits of a loop with a written invariant")
        inc_fn()
        mod = set(entry)
        for r in roots:
            self.frame(ex, S.get(r), ex.store.get(r), Ref(r), mod)
        for key, s in counters.items():
            if key in keys: continue
            ref, v = entry[key]
            if not ex.env.prove(eq(ex.load(ref), v + (k + 1) * s), 2): raise Unsupported("counter of a loop with a written invariant")
        end = (self.after or (lambda e, kk, en: self.at(e, kk + 1, en)))(ex, k, entry)
        for ref, v in end.items(): self.equal(ex, ref, v, "invariant is preserved")
        if self.extra: ex.oblige(self.extra(ex, k + 1), "inv", "invariant is preserved")
        raise PathEnd()

    def has(self, n, kind):
        if n.get("kind") == kind: return True
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"): return False
        return any(self.has(c, kind) for c in children(n))

    def frame(self, ex, a, b, ref, mod):
        if a is b or (ref.root, ref.path) in mod: return
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            for f in b.f: self.frame(ex, a.f.get(f), b.f[f], ref.field(f), mod)
            return
        if a is None or ex.same(a, b): return
        raise Unsupported("loop modifies %s, which its invariant leaves out" % (ref,))

    def havoc(self, v):
        if isinstance(v, Poly): return fresh("any", v.sort)
        if isinstance(v, Form): return boolvar("any%s" % fresh("b"))
        if isinstance(v, Arr):
            t = v.layers[0][1]
            nm = "any%d" % idxvars(False)[0].id
            if v.W is None and isinstance(t, (Poly, Form)):
                r, _ = idxvars(False)
                n = fresh("len", "I")
                return Arr(n, None, r, None, [(TRUE, app(nm, [from_atom(r)]) if isinstance(t, Poly) else bapp(nm, [from_atom(r)]))])
            if v.W is not None and isinstance(t, Poly):
                r, c = idxvars(True)
                n, w = fresh("rows", "I"), fresh("cols", "I")
                return Arr(n * w, w, r, c, [(TRUE, app(nm, [from_atom(r), from_atom(c)]))], v.tag)
        if v is None: return None
        raise Unsupported("arbitrary value of %r" % type(v))

    def equal(self, ex, ref, want, text):
        got = ex.load(ref)
        equal(ex, got, want, "inv", text)


def equal(ex, got, want, kind, text):
    """obligation(s) that two values agree, arrays at an arbitrary element"""
    if ex.same(got, want):
        ex.oblige(TRUE, kind, text); return
    if isinstance(got, Form) or isinstance(want, Form):
        ex.oblige(IFF(got, want), kind, text); return
    if isinstance(got, Poly) and isinstance(want, Poly):
        ex.oblige(eq(got, want), kind, text); return
    if isinstance(got, Arr) and isinstance(want, Arr):
        ex.oblige(eq(got.length, want.length), kind, text + " (length)")
        if got.W is None and want.W is None:
            i = fresh("i", "I"); ex.locals.add(the_atom(i)); ex.env.push()
            ex.env.assume(AND(le(0, i), lt(i, want.length)))
            g, w = ex.read(got, (i,)), ex.read(want, (i,))
            equal(ex, g, w, kind, text + " (element)")
            ex.env.pop(); return
        if got.W is None: got = ex.to2d(got, want.W)
        if want.W is None: want = ex.to2d(want, got.W)
        ex.oblige(eq(got.W, want.W), kind, text + " (row length)")
        i, j = fresh("i", "I"), fresh("j", "I")
        ex.locals.add(the_atom(i)); ex.locals.add(the_atom(j)); ex.env.push()
        ex.env.assume(AND(le(0, i), lt(i, ex.rows(want)), le(0, j), lt(j, want.W)))
        g, w = ex.read(got, (i, j)), ex.read(want, (i, j))
        equal(ex, g, w, kind, text + " (element)")
        ex.env.pop(); return
    if isinstance(got, Obj) and isinstance(want, Obj):
        for f in want.f: equal(ex, got.f.get(f), want.f[f], kind, "%s: %s" % (text, f))
        return
    if isinstance(got, (Ref, Ptr)) or isinstance(want, (Ref, Ptr)) or got is None or want is None or isinstance(want, Str):
        ex.oblige(TRUE if got is want or ex.same(got, want) else FALSE, kind, text); return
    raise Unsupported("comparison of %r and %r" % (type(got), type(want)))


def IFF(a, b):
    a = a if isinstance(a, Form) else NOT(eq(a, 0)); b = b if isinstance(b, Form) else NOT(eq(b, 0))
    return AND(OR(NOT(a), b), OR(a, NOT(b)))
