from fractions import Fraction
import re
from terms import *
import terms as TT
from values import *
from exec import *
from exec import _affine_breaks
import cast

PASS = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
        "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr")
HUGE = var("HUGE", "R")


class Frame:
    def __init__(self, fid, this=None, cls=None):
        self.id, self.this, self.cls = fid, this, cls
        self.alias = {}


def strip_decl(n):
    while n.get("kind") in PASS or n.get("kind") == "ImplicitCastExpr": n = n["inner"][0]
    return n["referencedDecl"] if n.get("kind") == "DeclRefExpr" else n


def children_of(n):
    return [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]


class Interp(Exec):
    _gb = 0

    # ------------------------------------------------------------ helpers
    @property
    def fr(self):
        return self.frames[-1]

    def num(self, v):
        if isinstance(v, Form): return ind(v)
        if isinstance(v, Poly): return v
        raise Unsupported("number expected, got %r" % (type(v),))

    def boolv(self, v):
        if isinstance(v, Form): return v
        if isinstance(v, Poly):
            return NOT(eq0(v))
        if isinstance(v, Ptr): return v.set
        if isinstance(v, Ref): return TRUE
        if v is NULL: return FALSE
        raise Unsupported("condition of %r" % (type(v),))

    def inner(self, n):
        return [c for c in n.get("inner", [])]

    def expr_root(self, n):
        while n.get("kind") in PASS or (n.get("kind") in ("ImplicitCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr")
                                        and n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase")):
            n = n["inner"][0]
        return n

    # ------------------------------------------------------------ lvalues
    def lv(self, n):
        n = self.expr_root(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            return self.var_ref(d)
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                v = self.ev(b)
                if isinstance(v, Ref): base = v
                elif isinstance(v, Obj): base = self.temp(v)
                else: raise Unsupported("-> on %r" % type(v))
            else:
                base = self.lv_or_temp(b)
            # static member?
            return self.deref_alias(base.field(n["name"]))
        if k == "CXXThisExpr":
            return self.fr.this
        if k == "CXXOperatorCallExpr":
            fn = self.callee_name(n)
            if fn == "operator[]":
                return self.lv_index(n["inner"][1], n["inner"][2], n)
            v = self.ev(n)
            if isinstance(v, Ref): return v
            return self.temp(v)
        if k == "ArraySubscriptExpr":
            return self.lv_index(n["inner"][0], n["inner"][1], n)
        if k == "UnaryOperator":
            if n["opcode"] == "*":
                v = self.ev(n["inner"][0])
                if isinstance(v, Ref): return v
                raise Unsupported("dereference")
            if n["opcode"] in ("++", "--"):
                self.ev(n)
                return self.lv(n["inner"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("="):
            self.ev(n)
            return self.lv(n["inner"][0])
        if k == "ImplicitCastExpr" and n.get("castKind") in ("LValueToRValue",):
            pass
        if k == "ConditionalOperator":
            c = self.branch(self.boolv(self.ev(n["inner"][0])))
            if c is not None:
                return self.lv(n["inner"][1] if c else n["inner"][2])
        if k == "CXXMemberCallExpr" or k == "CallExpr":
            v = self.ev(n, want_ref=True)
            if isinstance(v, Ref): return v
            return self.temp(v)
        v = self.ev(n)
        return v if isinstance(v, Ref) else self.temp(v)

    def deref_alias(self, ref):
        """reference members hold a Ref"""
        return ref

    def temp(self, v):
        self.nframe += 1
        root = ("t", self.nframe)
        self.store[root] = v
        return Ref(root)

    def is_lvalue(self, n):
        return n.get("valueCategory") == "lvalue"

    def lv_or_temp(self, n):
        m = self.expr_root(n)
        if m["kind"] in ("DeclRefExpr", "MemberExpr", "CXXThisExpr", "ArraySubscriptExpr") or \
           (m["kind"] == "CXXOperatorCallExpr" and self.callee_name(m) == "operator[]") or \
           (m["kind"] == "UnaryOperator" and m["opcode"] == "*"):
            return self.lv(m)
        v = self.ev(m)
        return v if isinstance(v, Ref) else self.temp(v)

    def var_ref(self, d):
        did = d["id"]
        for f in (self.fr,):
            if did in f.alias: return f.alias[did]
            root = ("v", f.id, did)
            if root in self.store: return Ref(root)
        return Ref(("g", d.get("name")))

    def lv_index(self, base, index, n):
        b = self.lv_or_temp(base)
        ix = self.ev(index)
        self.accessed = id(n)
        arr = self.load(b)
        while isinstance(arr, Ref):
            b = arr; arr = self.load(b)
        if isinstance(ix, SliceSpec):
            if isinstance(arr, Arr) and arr.W is None:
                a2 = self.slice_geom(arr, ix)[0]
                if a2 is not arr: self.storeto(b, a2)
            return b.slc(ix)
        if isinstance(ix, Arr) and isinstance(arr, Arr):
            self.oblige(eq(ix.length, arr.length), "size", "mask and array have the same length", n)
            return Ref(b.root, b.path + (("m", ix),))
        ix = self.num(ix)
        if isinstance(arr, Arr) and b.path and b.path[-1][0] == "i" and len(b.path[-1][1]) == 1:
            up = Ref(b.root, b.path[:-1])
            whole = self.load(up)
            if isinstance(whole, Arr) and whole.tag == "nested":
                self.oblige(AND(le(0, ix), lt(ix, whole.W)), "bounds", "array index in range", n)
                return up.idx((b.path[-1][1][0], ix))
        if isinstance(arr, Arr) and arr.tag == "nested":
            self.oblige(AND(le(0, ix), lt(ix, self.rows(arr))), "bounds", "array index in range", n)
            return b.idx((ix,))
        if isinstance(arr, Vec):
            self.oblige(AND(le(0, ix), lt(ix, len(arr.items))), "bounds", "vector index in range", n)
            return b.idx((ix,))
        if not isinstance(arr, Arr):
            raise Unsupported("index into %r" % type(arr))
        f = self.fit(arr, ix)
        if f is not arr:
            self.storeto(b, f); arr = f
        if arr.W is not None and arr.tag == "matrix":
            pass
        return b.idx(self.elem_index(arr, ix, n))

    def init_global(self, root):
        if root[0] == "g":
            g = self.globals_init.get(root[1])
            if g is not None:
                self.store[root] = g() if callable(g) else g
                return
            if root[1] == "verbosity":
                self.store[root] = var("verbosity", "I"); return
        raise Unsupported("unknown location %s" % (root,))

    # -------------------------------------------------------- expressions
    def ev(self, n, want_ref=False):
        k = n["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            if k in PASS:
                return self.ev(n["inner"][0])
            raise Unsupported("expression " + k)
        l = cast.line_of(n)
        if l: self.cur_line = l
        return m(n)

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        t = (n.get("argType") or {}).get("qualType") or ty(children_of(n)[0])
        if n.get("name") == "sizeof" and strip_type(t) == "double": return P(8)
        raise Unsupported("%s of %s" % (n.get("name"), t))

    def ev_IntegerLiteral(self, n): return P(int(n["value"]))
    def ev_CharacterLiteral(self, n): return P(int(n["value"]))
    def ev_FloatingLiteral(self, n): return P(Fraction(str(n["value"])) if "e" not in str(n["value"]).lower()
                                            else Fraction(str(n["value"])))
    def ev_CXXBoolLiteralExpr(self, n): return TRUE if n["value"] else FALSE
    def ev_StringLiteral(self, n): return Str(n.get("value"))
    def ev_PredefinedExpr(self, n): return Str("fn")
    def ev_CXXNullPtrLiteralExpr(self, n): return NULL
    def ev_GNUNullExpr(self, n): return NULL
    def ev_CXXDefaultArgExpr(self, n):
        if n.get("inner"): return self.ev(n["inner"][0])
        return None

    def ev_CXXThisExpr(self, n): return self.fr.this
    def ev_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"): return Str(d["name"])
        if d["kind"] == "EnumConstantDecl":
            e = self.prog.enum(strip_type(d["type"]["qualType"])) or {}
            if d["name"] not in e: raise Unsupported("constant " + d["name"])
            return P(e[d["name"]])
        return self.load(self.lv(n))
    def ev_MemberExpr(self, n): return self.load(self.lv(n))
    def ev_ArraySubscriptExpr(self, n): return self.load(self.lv(n))

    def ev_StmtExpr(self, n):
        self.run(n["inner"][0])
        return None

    def ev_ImplicitCastExpr(self, n): return self.cast(n)
    def ev_CStyleCastExpr(self, n): return self.cast(n)
    def ev_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def ev_CXXStaticCastExpr(self, n): return self.cast(n)

    def cast(self, n):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            return self.load(self.lv(sub))
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion", "ArrayToPointerDecay", "FunctionToPointerDecay", "BitCast",
                  "ToVoid", "BuiltinFnToFnPtr"):
            return self.ev(sub)
        v = self.ev(sub)
        if ck == "IntegralCast":
            return v if not isinstance(v, Form) else ind(v)
        if ck == "IntegralToFloating":
            return self.num(v)
        if ck == "FloatingCast": return v
        if ck == "FloatingToIntegral":
            return self.trunc(self.num(v))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.boolv(v)
        if ck == "NullToPointer": return NULL
        raise Unsupported("cast " + str(ck))

    def trunc(self, v):
        if v.sort == "I": return v
        if v.is_const():
            import math
            return P(math.trunc(v.const()))
        return app("trunc", [v], "I")

    def ev_UnaryOperator(self, n):
        op = n["opcode"]
        sub = n["inner"][0]
        if op == "-":
            v = self.ev(sub)
            return self.lift(lambda x: -self.num(x), v)
        if op == "+": return self.ev(sub)
        if op == "!": return NOT(self.boolv(self.ev(sub)))
        if op in ("++", "--"):
            r = self.lv(sub)
            v = self.num(self.load(r))
            nv = self.named(v + 1 if op == "++" else v - 1)
            self.storeto(r, nv)
            return v if n.get("isPostfix") else nv
        if op == "&": return self.lv(sub)
        if op == "*": return self.load(self.lv(n))
        if op == "__extension__": return self.ev(sub)
        raise Unsupported("unary " + op)

    abbrev = {}

    def named(self, v):
        """the name the contract gives to this value, if any (the two are assumed equal there)"""
        return self.abbrev.get(v, v)

    def abbreviate(self, *pairs):
        """call value v by the name a from now on"""
        self.abbrev = dict(self.abbrev)
        for v, a in pairs:
            self.env.assume(AND(le(v, a), le(a, v)))        # not as an equation, which would be used to eliminate the name
            self.abbrev[v] = a

    def arith(self, op, a, b, n, integer=False):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.lift(lambda x, y: self.arith(op, x, y, n), a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, Ptr) and b is NULL or isinstance(b, Ptr) and a is NULL:
                p = a.set if isinstance(a, Ptr) else b.set
                if op in ("==", "!="): return p if op == "!=" else NOT(p)
            if isinstance(a, (Ref, Null, Ptr)) or isinstance(b, (Ref, Null, Ptr)):
                if isinstance(a, Ref) and isinstance(b, Ref) and op in ("==", "!="):
                    if a.root != b.root or a.path == b.path: return TRUE if (a.root == b.root) == (op == "==") else FALSE
                    raise Unsupported("comparison of pointers")
                if not (a is b or a is NULL or b is NULL): raise Unsupported("comparison of pointers")
                same = (a is b)
                if op == "==": return TRUE if same else FALSE
                if op == "!=": return FALSE if same else TRUE
            if isinstance(a, Str) or isinstance(b, Str): raise Unsupported("string comparison")
            a, b = self.num(a), self.num(b)
            if self.flats:
                r = self.compare_rows(op, a - b)
                if r is not None: return r
            return {"<": lt, ">": gt, "<=": le, ">=": ge, "==": eq, "!=": ne}[op](a, b)
        a, b = self.num(a), self.num(b)
        if op == "+": return self.named(a + b)
        if op == "-": return self.named(a - b)
        if op == "*": return a * b
        if op == "/":
            if integer: return self.idiv(a, b, n)
            return self.named(self.rdiv(a, b, n))
        if op == "%": return self.imod(a, b, n)
        raise Unsupported("operator " + op)

    def place(self, a, W):
        """a = q W + c with 0 <= c < W, or None"""
        if not isinstance(a, Poly) or a.sort != "I": return None
        w, q, c = the_atom(W), ZERO, ZERO
        for m, x in a.m:
            d = dict(m)
            if d.get(w, 0) >= 1:
                d[w] -= 1
                if d[w] == 0: del d[w]
                q = q + mono_poly(tuple(sorted(d.items(), key=lambda ae: ae[0].id)), x)
            else: c = c + mono_poly(m, x)
        if c is ZERO or not (q.fv or c.fv): return None
        return (q, c) if self.env.prove(AND(le(0, c), lt(c, W)), 1) else None

    def compare_rows(self, op, p):
        """q W + c < 0 is q < 0 when 0 <= c < W"""
        for W in self.flats:
            if op in ("<", ">="):
                d = self.place(p, W)
                if d is not None: return lt(d[0], 0) if op == "<" else ge(d[0], 0)
            elif op in (">", "<="):
                d = self.place(-p, W)
                if d is not None: return lt(d[0], 0) if op == ">" else ge(d[0], 0)
            else:
                d = self.place(p, W) or self.place(-p, W)
                if d is not None:
                    f = AND(eq(d[0], 0), eq(d[1], 0))
                    return f if op == "==" else NOT(f)
        return None

    def idiv(self, a, b, n):
        self.oblige(ne(b, 0), "div", "integer division by non-zero", n)
        return self.quotient(a, b)[0]

    def imod(self, a, b, n):
        self.oblige(ne(b, 0), "div", "integer remainder by non-zero", n)
        return self.quotient(a, b)[1]

    def quotient(self, a, b):
        """integer quotient and remainder (towards zero)"""
        if a.is_const() and b.is_const() and b.const() != 0:
            q = abs(a.const()) // abs(b.const())
            q = q if (a.const() >= 0) == (b.const() > 0) else -q
            return P(q), a - b * q
        if b.is_const() and b.const() != 0:
            c = b.const()
            if all((x / c).denominator == 1 for m, x in a.m): return a * P(1 / c), ZERO
        elif as_atom(b) is not None:
            w, q = as_atom(b), ZERO
            for m, c in a.m:
                d = dict(m)
                if d.get(w, 0) < 1: break
                d[w] -= 1
                if d[w] == 0: del d[w]
                q = q + mono_poly(tuple(sorted(d.items(), key=lambda ae: ae[0].id)), c)
            else: return q, ZERO
        p = lambda f: self.env.prove(f, 1)
        if b in self.flats:
            d = self.place(a, b)
            if d is not None and p(ge(d[0], 0)): return d
        if p(gt(b, 0)):
            if p(lt(-b, a)) and p(lt(a, b)): return ZERO, a
            if p(le(0, a)) and p(lt(a, 2 * b)):
                c = lt(a, b)
                d = self.branch(c)
                if d is None: return ite(c, ZERO, ONE), ite(c, a, a - b)
                return (ZERO, a) if d else (ONE, a - b)
        return app("idiv", [a, b], "I"), app("imod", [a, b], "I")

    def rdiv(self, a, b, n):
        if b.is_const():
            if b.const() == 0:
                self.oblige(FALSE, "div", "division by zero", n)
                return fresh("undef")
            return a * P(1 / b.const())
        if len(b.m) > 1 and squares(b): self.env.assume(ge(squares(b), 0))
        nz = self.branch_quiet(ne(b, 0))
        if nz is True:
            return self.quot(a, b)
        # x/0 is +-inf in IEEE arithmetic (defined), 0/0 is NaN
        z = self.branch(ne(b, 0))
        if z is True: return self.quot(a, b)
        if z is False:
            self.oblige(ne(a, 0), "nan", "no 0/0", n)
            s = self.branch(gt(a, 0))
            inf = var("INF", "R")
            self.env.assume(ge(inf, 10**9))
            return inf if s else -inf
        self.oblige(ne(b, 0), "div", "divisor is non-zero", n)
        return self.quot(a, b)

    def quot(self, a, b):
        if len(b.m) == 1 and all(x.kind not in ("ind", "inv") for x, e in b.m[0][0]): return a * inverse(b)
        if a is b: return ONE
        if self.by_inverse:
            c = b.m[0][1]
            return a * P(1 / c) * app("div", [ONE, b * P(1 / c)])
        return app("div", [a, b])

    by_inverse = False                   # a / b as a (1 / b)

    def branch_quiet(self, f):
        d = self.env.decide(f, 2)
        return d

    def ev_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.ev(r)
            ref = self.lv(l)
            self.assign(ref, v, n)
            return v
        if op == ",":
            self.ev(l)
            return self.ev(r)
        if op in ("&&", "||"):
            a = self.boolv(self.ev(l))
            if self.has_effect(r) or self.may_fail(r):
                d = self.branch(a)
                if d is not None:
                    if op == "&&": return self.boolv(self.ev(r)) if d else FALSE
                    return TRUE if d else self.boolv(self.ev(r))
                b = self.under(a if op == "&&" else NOT(a), lambda: self.boolv(self.ev(r)))
            else:
                b = self.boolv(self.ev(r))
            return AND(a, b) if op == "&&" else OR(a, b)
        if op in ("|", "&", "^") and self.logical(op, l) and self.logical(op, r):
            a = self.boolv(self.ev(self.logical(op, l)))
            return self.combine(op, a, self.boolv(self.ev(self.logical(op, r))))
        a, b = self.ev(l), self.ev(r)
        return self.arith(op, a, b, n, integer=is_int_type(ty(n)))

    def may_fail(self, n):
        k = n.get("kind")
        if k in ("CXXOperatorCallExpr", "CallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr"): return True
        if k == "BinaryOperator" and n.get("opcode") in ("/", "%"): return True
        return any(self.may_fail(c) for c in n.get("inner", []) if isinstance(c, dict) and c)

    def has_effect(self, n):
        k = n.get("kind")
        if k in ("CallExpr", "CXXMemberCallExpr", "CompoundAssignOperator"): return True
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"): return True
        if k == "BinaryOperator" and n.get("opcode") == "=": return True
        return any(self.has_effect(c) for c in n.get("inner", []) if isinstance(c, dict) and c)

    def under(self, cond, f):
        """evaluate f when cond holds, merging its effects"""
        S0 = self.store
        self.store = dict(S0)
        self.env.push(); self.env.assume(cond)
        g = len(self.gstack); self.gstack.append(cond)
        try:
            v = f()
        finally:
            del self.gstack[g:]
            self.env.pop()
        S1 = self.store
        self.store = self.merge_stores(cond, S1, S0)
        return v

    def ev_ConditionalOperator(self, n):
        c = self.boolv(self.ev(n["inner"][0]))
        d = self.branch(c)
        if d is True: return self.ev(n["inner"][1])
        if d is False: return self.ev(n["inner"][2])
        a = self.under(c, lambda: self.ev(n["inner"][1]))
        b = self.under(NOT(c), lambda: self.ev(n["inner"][2]))
        return self.val_ite(self.simp(c), a, b)

    def logical(self, op, n):
        """the operand of |, & or ^ when it is a bool, else None"""
        while n.get("kind") in ("ParenExpr",) or (n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "IntegralCast"): n = n["inner"][0]
        if n.get("kind") == "BinaryOperator" and n.get("opcode") in ("|", "&", "^"):
            return n if all(self.logical(op, c) for c in n["inner"]) else None
        return n if ty(n).replace("const ", "").strip() in ("bool", "_Bool") else None

    def combine(self, op, a, b):
        if op == "^": return OR(AND(a, NOT(b)), AND(NOT(a), b))
        return AND(a, b) if op == "&" else OR(a, b)

    def ev_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        if op in ("|", "&", "^"):
            if not self.logical(op, l) or not self.logical(op, r): raise Unsupported("operator " + op)
            v = self.boolv(self.ev(self.logical(op, r)))
            ref = self.lv(l)
            nv = self.combine(op, self.boolv(self.load(ref)), v)
            self.storeto(ref, nv)
            return nv
        v = self.ev(r)
        ref = self.lv(l)
        cur = self.load(ref)
        nv = self.arith(op, cur, v, n, integer=is_int_type(ty(n)) and is_int_type(n.get("computeResultType", {}).get("qualType", "int")))
        if is_int_type(ty(n)) and isinstance(nv, Poly): nv = self.trunc(nv)
        self.storeto(ref, nv)
        return nv

    def assign(self, ref, v, n=None):
        cur = None
        if ref.path and ref.path[-1][0] in ("s", "m"):
            self.storeto(ref, v); return
        if ref.root in self.store or ref.root[0] == "g":
            try:
                cur = self.load(ref) if not (ref.path and ref.path[-1][0] == "i" and not isinstance(v, (Arr, Obj))) else None
            except Unsupported:
                cur = None
        if isinstance(cur, Arr) and not isinstance(v, Arr):
            if isinstance(v, (Poly, Form)):
                # valarray = scalar
                v = Arr(cur.length, cur.W, cur.R, cur.C, [(TRUE, v)], cur.tag)
        self.storeto(ref, v)

    def ev_InitListExpr(self, n):
        return Vec([self.ev(c) for c in n.get("inner", [])])

    def ev_CXXStdInitializerListExpr(self, n):
        return self.ev(n["inner"][0])

    def ev_CXXScalarValueInitExpr(self, n): return ZERO
    def ev_ImplicitValueInitExpr(self, n): return ZERO

    # ------------------------------------------------------ constructors
    def ev_CXXConstructExpr(self, n): return self.construct(n)
    def ev_CXXTemporaryObjectExpr(self, n): return self.construct(n)

    def ev_CXXNewExpr(self, n):
        """new T(...): a new object, reached through its address only"""
        cs = children_of(n)
        if n.get("isArray") or n.get("isPlacement") or len(cs) != 1 or cs[0]["kind"] != "CXXConstructExpr": raise Unsupported("new")
        if self.merge: raise Unsupported("new in a merged branch")
        v = self.construct(cs[0])
        self.nframe += 1
        root = ("heap", self.nframe)
        self.store[root] = v
        return Ref(root)

    def ev_CXXDeleteExpr(self, n):
        self.arg_values(children_of(n))

    def construct(self, n):
        t = strip_type(ty(n))
        args = [c for c in n.get("inner", [])]
        if t.startswith("valarray<") or t.startswith("vector<"):
            return self.mk_valarray(n, t, args)
        if t.startswith("initializer_list<") and not args: return Vec([])
        if t == "slice":
            if len(args) == 1: return self.ev(args[0])
            if not args: return SliceSpec(ZERO, ZERO, ZERO)
            a = [self.num(self.ev(x)) for x in args]
            return SliceSpec(*a)
        if "string" in t:
            vs = [self.ev(a) for a in args]
            return vs[0] if vs else Str("")
        if len(args) == 1:
            at = strip_type(ty(self.expr_root(args[0])))
            if at == t or self.is_derived(at, t):
                v = self.ev(args[0])
                if isinstance(v, Ref): v = self.load(v)
                return v
        return self.construct_class(t, args, n)

    def is_derived(self, a, b):
        if a == b: return True
        try:
            return any(self.is_derived(strip_type(x), b) for x in self.prog.bases(a))
        except Exception:
            return False

    def mk_valarray(self, n, t, args):
        if not args:
            r, _ = idxvars(False)
            return Arr(ZERO, None, r, None, [(TRUE, ZERO)])
        ct = n.get("ctorType", {}).get("qualType", "")
        if len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, Ref): v = self.load(v)
            if isinstance(v, Arr): return v
            if isinstance(v, Vec):
                if t.startswith("vector<"): return v
                return self.vec_to_arr(v)
            if isinstance(v, (Poly,)):
                elem = t[len("valarray<"):-1]
                z = self.default_value(elem)
                a = const_arr(z, v)
                self.oblige(ge(v, 0), "size", "array length is not negative", n)
                return a
            raise Unsupported("valarray from %r" % type(v))
        if len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if isinstance(a, Ref) and "*" in ct.split("(")[-1].split(",")[0]:
                a = self.load(a); ln = self.num(b)
                if not isinstance(a, Arr): raise Unsupported("valarray from a pointer")
                self.oblige(AND(le(0, ln), le(ln, a.length)), "bounds", "elements copied from the array exist", n)
                if ln is a.length: return a
                if a.W is not None: raise Unsupported("valarray from part of rows")
                return Arr(ln, None, a.R, None, a.layers, a.tag)
            if isinstance(a, Ref) and not isinstance(b, Ref):
                a = self.load(a)
            if isinstance(a, (Arr, Obj)) or (isinstance(a, (Poly, Form)) and not isinstance(b, Ref)):
                ln = self.num(b)
                self.oblige(ge(ln, 0), "size", "array length is not negative", n)
                if t.startswith("vector<"):
                    a, ln = (b, self.num(a))
                if isinstance(a, Arr) and a.W is None: return self.nested(a, ln)
                return const_arr(a, ln)
        raise Unsupported("valarray constructor")

    def nested(self, row, n):
        """n rows, each a copy of row"""
        r, c = idxvars(True)
        self.locals |= {r, c}
        self.env.push(); self.env.assume(AND(le(0, from_atom(c)), lt(from_atom(c), row.length)))
        t = self.read(row, (from_atom(c),))
        self.env.pop()
        return Arr(P(n) * row.length, row.length, r, c, [(TRUE, t)], "nested")

    def vec_to_arr(self, v):
        r, _ = idxvars(False)
        if not v.items:
            return Arr(ZERO, None, r, None, [(TRUE, ZERO)])
        L = [(TRUE, v.items[-1])]
        for i, x in enumerate(v.items[:-1]):
            L.append((eq(from_atom(r), i), x))
        return Arr(P(len(v.items)), None, r, None, L)

    def default_value(self, t):
        t = strip_type(t)
        if is_int_type(t) or is_float_type(t): return ZERO
        if t == "bool": return FALSE
        if t.startswith("valarray<"):
            r, _ = idxvars(False)
            return Arr(ZERO, None, r, None, [(TRUE, self.element_default(t))])
        if "*" in t: return NULL
        if "string" in t: return Str("")
        return self.default_object(t)

    def element_default(self, t):
        """what an element of an array of this type starts as"""
        e = t[len("valarray<"):].rstrip().rstrip(">").strip() if t.startswith("valarray<") else ""
        if re.match(r"^valarray<[A-Z]\w*$", e.rstrip("> ")): return self.default_value(e.rstrip("> ") + ">")
        if not re.match(r"^[A-Z]\w*$", e): return FALSE if e == "bool" else ZERO
        return self.default_object(e)

    def undef(self, t, name):
        t = strip_type(t)
        if t == "bool": return boolvar("undef_" + name + str(fresh("u")))
        if is_int_type(t): return fresh("undef_" + name, "I")
        if is_float_type(t): return fresh("undef_" + name, "R")
        if "*" in t: return NULL
        return self.default_value(t)

    def default_object(self, t):
        if self.prog.record(t) is None and self.prog.enum(t) is not None: return fresh("enum", "I")
        f = {}
        for nm, ft, init, st in self.prog.fields(t):
            f[nm] = self.undef(ft, nm)
        if not f and self.prog.record(t) is None:
            raise Unsupported("class " + t)
        return Obj(t, f)

    def construct_class(self, cls, args, n):
        h = self.contracts.get(cls + "::" + cls)
        argv = None
        d = None
        nargs = len(args)
        ct = n.get("ctorType", {}).get("qualType")
        r = self.prog.method_here(cls, cls, nargs, ct) if ct else None
        r = r or self.prog.method_here(cls, cls, nargs)
        if h is not None:
            vals = [self.ev(a) for a in args]
            vals = [self.load(v) if isinstance(v, Ref) else v for v in vals]
            return h(self, None, vals)
        obj = self.default_object(cls)
        root = self.temp(obj)
        if r is None:
            if nargs == 0: return obj
            raise Unsupported("constructor of " + cls)
        self.call_decl(r, cls, root, args, n)
        return self.load(root)

    # -------------------------------------------------------------- calls
    def callee_name(self, n):
        c = n["inner"][0]
        while c.get("kind") in PASS or c.get("kind") == "ImplicitCastExpr":
            c = c["inner"][0]
        if c["kind"] == "DeclRefExpr": return c["referencedDecl"]["name"]
        if c["kind"] == "MemberExpr": return c["name"]
        return "?"

    def callee_decl(self, n):
        c = n["inner"][0]
        while c.get("kind") in PASS or c.get("kind") == "ImplicitCastExpr":
            c = c["inner"][0]
        return c

    def ev_CXXOperatorCallExpr(self, n):
        op = self.callee_name(n)
        args = n["inner"][1:]
        if op == "operator[]":
            return self.load(self.lv(n))
        if op == "operator=":
            t = strip_type(ty(args[0]))
            ref = self.lv(args[0])
            cls_assign = None
            if not t.startswith("valarray") and not t.startswith("slice") and "string" not in t:
                cls_assign = self.prog.method_here(t, "operator=")
            if cls_assign is not None and not cls_assign.get("isImplicit"):
                self.call_decl(cls_assign, t, ref, args[1:], n)
                return ref
            v = self.ev(args[1])
            if isinstance(v, Ref): v = self.load(v)
            if isinstance(v, Vec) and t.startswith("valarray"): v = self.vec_to_arr(v)
            self.assign(ref, v, n)
            return ref
        m = re.match(r"operator(\+|-|\*|/|<|>|<=|>=|==|!=)$", op)
        if m:
            vals = [self.ev(a) for a in args]
            vals = [self.load(v) if isinstance(v, Ref) else v for v in vals]
            if len(vals) == 1 and m.group(1) == "-":
                return self.lift(lambda x: -self.num(x), vals[0])
            if len(vals) == 1: return vals[0]
            return self.arith(m.group(1), vals[0], vals[1], n)
        m = re.match(r"operator(\+|-|\*|/)=$", op)
        if m:
            v = self.ev(args[1])
            if isinstance(v, Ref): v = self.load(v)
            ref = self.lv(args[0])
            cur = self.load(ref)
            self.storeto(ref, self.arith(m.group(1), cur, v, n))
            return ref
        if op in ("operator<<", "operator>>"):
            for a in args:
                pass
            return self.stream(n, op, args)
        if op == "operator()":
            raise Unsupported("call operator")
        raise Unsupported(op)

    def stream(self, n, op, args):
        dest = strip_decl(args[0])
        if op == "operator<<" and (dest.get("name") in ("cout", "cerr", "clog") or dest.get("kind") == "CXXOperatorCallExpr"):
            if dest.get("kind") == "CXXOperatorCallExpr": self.stream(dest, op, dest["inner"][1:])
            if children_of(args[1]) or args[1].get("kind") != "StringLiteral":
                v = strip_decl(args[1])
                if (v.get("name") not in ("endl", "flush", "fixed", "scientific")) and v.get("kind") != "StringLiteral": self.ev(args[1])
            return None
        raise Unsupported("stream " + op)

    def ev_CXXMemberCallExpr(self, n):
        me = self.callee_decl(n)
        name = me["name"]
        args = n["inner"][1:]
        b = me["inner"][0]
        if me.get("isArrow"):
            base = self.ev(b)
            if not isinstance(base, Ref): base = self.temp(base)
        else:
            base = self.lv_or_temp(b)
        obj = self.load(base)
        while isinstance(obj, Ref):
            base = obj; obj = self.load(base)
        if isinstance(obj, (Arr, Vec)):
            return self.arr_method(obj, base, name, args, n)
        if isinstance(obj, Str):
            return self.str_method(obj, name, args)
        if not isinstance(obj, Obj): raise Unsupported("method %s on %r" % (name, type(obj)))
        static_cls = strip_type(ty(self.expr_root_nocast(b))).replace("*", "").strip()
        cls = obj.cls
        up, own = b, None
        while up.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            if up.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase") and own is None: own = strip_type(ty(up)).replace("*", "").replace("const", "").strip()
            up = up["inner"][0]
        if own and up.get("kind") == "CXXThisExpr":
            st = strip_type(ty(up)).replace("*", "").replace("const", "").strip()
            if self.prog.method_here(st, name, len(args)) is not None: cls = own      # Base::f(): not a virtual call
        return self.call_method(cls, name, base, args, n)

    def expr_root_nocast(self, n):
        while n.get("kind") in PASS: n = n["inner"][0]
        return n

    def str_method(self, s, name, args):
        raise Unsupported("string method " + name)

    def call_method(self, cls, name, this, args, n):
        h = None
        c = cls
        chain = [cls]
        while chain:
            c = chain.pop(0)
            h = self.contracts.get(c + "::" + name)
            if h: break
            if self.prog.method_here(c, name, len(args)) is not None:
                break
            chain += [strip_type(x) for x in self.prog.bases(c)]
        key = c + "::" + name
        if h is not None:
            vals = self.arg_values(args)
            self.contracted.add(key)
            return h(self, this, vals)
        r = self.prog.method(cls, name, len(args))
        if r is None: raise Unsupported("no definition of %s::%s" % (cls, name))
        return self.call_decl(r[0], r[1], this, args, n)

    def arg_values(self, args):
        vals = [self.ev(a) for a in args]
        return [self.load(v) if isinstance(v, Ref) and not isinstance(v, Null) else v for v in vals]

    def arr_method(self, a, base, name, args, n):
        if name == "size":
            if isinstance(a, Arr) and a.tag == "nested": return self.rows(a)
            return P(len(a.items)) if isinstance(a, Vec) else a.length
        if name == "sum": return self.arr_sum(a)
        if name in ("min", "max"):
            f = "v" + name
            return self.arr_minmax(a, name)
        if name == "resize":
            v = self.arg_values(args)
            fill = v[1] if len(v) > 1 and v[1] is not None else self.elem_default(a, n)
            self.storeto(base, const_arr(fill, v[0]))
            return None
        if name == "push_back" and isinstance(a, Arr) and a.tag != "nested":
            v = self.arg_values(args)
            if a.W is not None:      # contents of rows seen as a list: left open
                r, _ = idxvars(False)
                nm = "open%d" % r.id
                self.localapps.add(nm)
                a = Arr(a.length, None, r, None, [(TRUE, app(nm, [from_atom(r)]))])
            b = Arr(a.length + 1, None, a.R, None, a.layers + ((eq(from_atom(a.R), a.length), v[0]),), a.tag)
            self.storeto(base, b)
            return None
        if name == "data" and isinstance(a, Arr): return base
        if name == "empty" and isinstance(a, Arr): return eq(a.length, 0)
        if name == "push_back" and isinstance(a, Vec):
            v = self.arg_values(args)
            self.storeto(base, Vec(list(a.items) + [v[0]]))
            return None
        raise Unsupported("array method " + name)

    def elem_default(self, a, n=None):
        t = a.layers[0][1]
        if isinstance(t, (Obj, Arr)) and n is not None:
            me = n["inner"][0]
            while me.get("kind") != "MemberExpr": me = me["inner"][0]
            b = strip_type(ty(self.expr_root_nocast(me["inner"][0])))
            if not b.startswith("valarray<"): raise Unsupported("resize of %s" % b)
            return self.element_default(b)
        return ZERO if isinstance(t, Poly) else (FALSE if isinstance(t, Form) else t)

    def arr_minmax(self, a, name):
        raise Unsupported("valarray " + name)

    MATH = {"exp": "exp", "log": "log", "sqrt": "sqrt", "pow": "pow", "erf": "erf", "erfc": "erfc",
            "floor": "floor", "ceil": "ceil", "round": "round", "log10": "log10", "fabs": "abs",
            "sin": "sin", "cos": "cos"}

    def ev_CallExpr(self, n):
        cd = self.callee_decl(n)
        if cd["kind"] != "DeclRefExpr": raise Unsupported("indirect call")
        name = cd["referencedDecl"]["name"]
        args = n["inner"][1:]
        if name in ("printf", "fprintf", "fflush", "puts", "strrchr", "putchar"):
            for a in args:
                v = None
                try:
                    v = self.ev(a)
                except Unsupported:
                    if self.quiet: pass
                    v = None
            return ZERO
        if name in ("exit", "abort"):
            self.do_throw("exit", n)
            return None
        if name in self.contracts:
            vals = [self.ev(a) for a in args]
            self.contracted.add(name)
            return self.contracts[name](self, None, vals)
        if name in self.MATH and not self.prog.defines(name):
            vals = self.arg_values(args)
            return self.lift(lambda *xs: self.math(self.MATH[name], [self.num(x) for x in xs], n), *vals)
        if name == "abs":
            vals = self.arg_values(args)
            rt = tq(n)
            return self.lift(lambda x: self.absval(self.num(x)), *vals)
        if name in ("isnan", "isinf", "__builtin_isnan"):
            self.arg_values(args)
            return FALSE
        if name in ("fmax", "fmin") and len(args) == 2 and not self.prog.defines(name): name = name[1:]     # nan excluded
        if name in ("max", "min") and len(args) == 2:
            a, b = [self.num(x) for x in self.arg_values(args)]
            c = le(a, b) if name == "min" else le(b, a)
            d = self.branch(c)
            if d is None: return ite(c, a, b)
            return a if d else b
        if name == "free": self.arg_values(args); return None
        if name == "malloc":
            w = self.num(self.ev(args[0]))
            r, _ = idxvars(False)
            if any((c / 8).denominator != 1 for m, c in w.m): raise Unsupported("malloc")
            self.nframe += 1
            root = ("heap", self.nframe)
            self.store[root] = Arr(w * P(Fraction(1, 8)), None, r, None, [(TRUE, app("uninitialised%d" % r.id, [from_atom(r)]))])
            return Ref(root)
        if name in ("swap",) and len(args) == 2:
            r1, r2 = self.lv(args[0]), self.lv(args[1])
            v1, v2 = self.load(r1), self.load(r2)
            self.storeto(r1, v2); self.storeto(r2, v1)
            return None
        if name in ("move", "forward"):
            return self.ev(args[0])
        d = self.prog_function(name, len(args), (cd["referencedDecl"].get("type") or {}).get("qualType"))
        if d is None:
            raise Unsupported("call of " + name)
        return self.call_decl(d, None, None, args, n)

    def prog_function(self, name, nargs=None, sig=None):
        try:
            d = self.prog.function(name, nargs, sig) if sig else None
            return d or self.prog.function(name, nargs)
        except cast.ExtractError:
            return None

    def absval(self, v):
        d = self.branch(ge(v, 0))
        if d is True: return v
        if d is False: return -v
        return ite(ge(v, 0), v, -v)

    def math(self, f, args, n):
        if f == "abs": return self.absval(args[0])
        if all(a.is_const() for a in args):
            c = args[0].const()
            if f == "exp" and c == 0: return ONE
            if f == "log" and c == 1: return ZERO
            if f == "pow" and args[1].const().denominator == 1 and abs(args[1].const()) < 50:
                return P(c ** int(args[1].const()))
            import math
            if f == "floor": return P(math.floor(c))
            if f == "ceil": return P(math.ceil(c))
        if f == "pow" and args[1].is_const():
            e = args[1].const()
            if e.denominator == 1 and 0 <= e <= 8: return args[0] ** int(e)
        if f in ("floor", "ceil", "round"):
            if args[0].sort == "I": return args[0]
            return self.named(app(f, args, "I"))
        return app(f, args, "R")

    def call_decl(self, d, cls, this, args, n):
        if self.depth > 40: raise Unsupported("recursion")
        ps = cast.params(d)
        fname = (cls + "::" if cls else "") + d.get("name", "?")
        self.inlined.add(fname)
        binds = []
        for i, p in enumerate(ps):
            pt = p["type"]["qualType"]
            if i < len(args) and args[i].get("kind") != "CXXDefaultArgExpr":
                a = args[i]
                if pt.rstrip().endswith("&") and not pt.rstrip().endswith("&&"):
                    r = self.lv_or_temp(a)
                    v = ("ref", r)
                else:
                    x = self.ev(a)
                    if isinstance(x, Ref) and "*" not in pt: x = self.load(x)
                    if "valarray" in pt and isinstance(x, Vec): x = self.vec_to_arr(x)
                    v = ("val", x)
            else:
                x = self.default_arg(d, cls, i, p, args[i] if i < len(args) else None)
                v = ("val", x)
            binds.append((p, v))
        return self.call_body(d, cls, this, binds, fname)

    def default_arg(self, d, cls, i, p, a):
        def find(pp):
            for c in pp.get("inner", []):
                if c.get("kind") and c["kind"] != "FullComment" and not c["kind"].endswith("Attr"): return c
            return None
        if a is not None and a.get("inner"): return self.ev(a["inner"][0])
        e = find(p)
        if e is None and cls:
            rec = self.prog.record(cls)
            for c in rec.get("inner", []):
                if c.get("name") == d.get("name"):
                    q = cast.params(c)
                    if len(q) > i and find(q[i]) is not None and len(q) == len(cast.params(d)): e = find(q[i]); break
        if e is None and not cls:
            for x in self.prog._cands(d["name"]):
                q = cast.params(x)
                if len(q) > i and find(q[i]) is not None: e = find(q[i]); break
        if e is None: raise Unsupported("default argument of " + d.get("name", "?"))
        v = self.ev(e)
        if isinstance(v, Ref): v = self.load(v)
        return v

    def call_body(self, d, cls, this, binds, fname):
        self.nframe += 1
        f = Frame(self.nframe, this, cls)
        for p, (k, v) in binds:
            if k == "ref": f.alias[p["id"]] = v
            else: self.store[("v", f.id, p["id"])] = v
        self.frames.append(f)
        self.fnstack.append(fname)
        self.depth += 1
        line = self.cur_line
        outs0, alive0, g0 = self.outs, self.alive, len(self.gstack)
        gb0 = self._gb
        self._gb = g0
        self.outs, self.alive = [], TRUE
        scoped = self.merge > 0
        if scoped: self.env.push()
        try:
            for c in d.get("inner", []):
                if c.get("kind") == "CXXCtorInitializer": self.ctor_init(c, d, cls, this)
            b = cast.body(d)
            if b is None: raise Unsupported("no body: " + fname)
            self.run(b)
        finally:
            if scoped: self.env.pop()
            self.depth -= 1
            self.fnstack.pop()
            self.frames.pop()
        self.cur_line = line
        outs, alive = self.outs, self.alive
        self.outs, self.alive = outs0, alive0
        self._gb = gb0
        del self.gstack[g0:]
        rets = [o for o in outs if o[1] == "return"]
        for o in outs:
            if o[1] == "throw":
                self.outs.append((AND(o[0], *self.gstack[gb0:]),) + o[1:])
            elif o[1] != "return":
                raise Unsupported("control flow leaves function")
        val = None
        if rets:
            st = self.store if alive is not FALSE else None
            for c, kk, v, s in reversed(rets):
                if st is None:
                    val, st = v, s
                else:
                    st = self.merge_stores(c, s, st)
                    val = v if val is None else self.val_ite(c, v, val)
            self.store = st
            if alive is FALSE and not rets: self.alive = FALSE
        elif alive is FALSE:
            self.alive = FALSE      # always throws
            if self.merge == 0: raise PathEnd()
        return val

    def ctor_init(self, c, d, cls, this):
        sub = c["inner"][0] if c.get("inner") else None
        if "anyInit" in c:
            fld = c["anyInit"]["name"]
            ft = c["anyInit"]["type"]["qualType"]
            if sub is None: return
            if sub.get("kind") == "CXXDefaultInitExpr":
                if sub.get("inner"): sub = sub["inner"][0]
                else: return
            if ft.rstrip().endswith("&"):
                self.storeto(this.field(fld), self.lv_or_temp(sub)); return
            v = self.ev(sub)
            if isinstance(v, Ref) and "*" not in ft: v = self.load(v)
            if isinstance(v, Vec) and "valarray" in ft: v = self.vec_to_arr(v)
            self.storeto(this.field(fld), v)
            return
        if "baseInit" in c:
            bt = strip_type(c["baseInit"]["qualType"])
            e = self.expr_root(sub)
            args = [x for x in e.get("inner", [])]
            if e["kind"] == "CXXConstructExpr":
                r = self.prog.method_here(bt, bt, len(args), e.get("ctorType", {}).get("qualType")) or \
                    self.prog.method_here(bt, bt, len(args))
                if r is None:
                    if args: raise Unsupported("base constructor")
                    return
                self.call_decl(r, bt, this, args, c)
                return
        raise Unsupported("constructor initialiser")

    def ev_CXXDefaultInitExpr(self, n): return self.ev(n["inner"][0])

    def ev_CXXThrowExpr(self, n):
        self.do_throw("throw", n)
        return None

    def do_throw(self, what, n):
        if self.on_throw: self.on_throw(self, what, n)
        else: self.oblige(FALSE, "abort", "no abort is reachable here", n)
        self.outs.append((AND(*self.gstack[self.gbase():]), "throw", what, dict(self.store)))
        self.alive = FALSE

    def gbase(self):
        return self._gb

    # ---------------------------------------------------------- statements
    def run(self, n):
        if self.alive is FALSE: return
        k = n.get("kind")
        if not k: return
        l = cast.line_of(n)
        if l: self.cur_line = l
        m = getattr(self, "run_" + k, None)
        if m is not None: return m(n)
        self.ev(n)

    def run_CompoundStmt(self, n):
        for c in n.get("inner", []):
            if self.alive is FALSE: break
            self.run(c)

    def run_NullStmt(self, n): pass

    def run_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl": self.decl_var(d)
            elif d["kind"] in ("TypedefDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl", "EmptyDecl"): pass
            else: raise Unsupported("declaration " + d["kind"])

    def decl_var(self, d):
        root = ("v", self.fr.id, d["id"])
        t = d["type"]["qualType"]
        dt = d["type"].get("desugaredQualType", t)
        init = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr") and c["kind"] != "FullComment"]
        if not init:
            self.store[root] = self.undef(dt, d.get("name", "x"))
            return
        if t.rstrip().endswith("&"):
            self.fr.alias[d["id"]] = self.lv_or_temp(init[0])
            return
        v = self.ev(init[0])
        if isinstance(v, Ref) and "*" not in t: v = self.load(v)
        if isinstance(v, Vec) and "valarray" in t: v = self.vec_to_arr(v)
        self.store[root] = v

    def run_ReturnStmt(self, n):
        v = None
        if n.get("inner"):
            v = self.ev(n["inner"][0])
            if isinstance(v, Ref) and self.fr.this is not None and v is self.fr.this: pass
            elif isinstance(v, Ref): v = self.load(v)
        self.outs.append((AND(*self.gstack[self.gbase():]), "return", v, dict(self.store)))
        self.alive = FALSE

    def run_BreakStmt(self, n):
        self.outs.append((AND(*self.gstack[self.gbase():]), "break", None, dict(self.store)))
        self.alive = FALSE

    def run_ContinueStmt(self, n):
        self.outs.append((AND(*self.gstack[self.gbase():]), "continue", None, dict(self.store)))
        self.alive = FALSE

    def run_CXXTryStmt(self, n):
        raise Unsupported("try")

    def run_OMPParallelForDirective(self, n): return self.run_omp(n)
    def run_OMPForDirective(self, n): return self.run_omp(n)

    def run_omp(self, n):
        def find(x):
            if x.get("kind") in ("ForStmt",): return x
            for c in x.get("inner", []):
                if isinstance(c, dict):
                    r = find(c)
                    if r: return r
            return None
        f = find(n)
        if f is None: raise Unsupported("omp")
        self.par = self.sharing(n, f) if self.races else None
        self.run(f)
        self.par = None

    races, par = False, None             # oblige parallel loops to be free of races

    def sharing(self, n, f):
        """(declarations private to an iteration, those whose last value is kept) of a parallel loop"""
        def walk(x, hit):
            hit(x)
            for c in x.get("inner", []):
                if isinstance(c, dict): walk(c, hit)
        b, e = n["range"]["begin"].get("offset"), n["range"]["end"].get("offset")
        text = None
        for t in self.prog.srcs if b is not None and e is not None else ():
            s = self.prog.raw(t)[b:e].decode("utf-8", "replace")
            if re.match(r"#?\s*(pragma\s+)?omp\b", s): text = s if text is None or text == s else False
        if not text: raise Unsupported("text of the parallel directive")
        clauses = {}
        for w, xs in re.findall(r"(\w+)\s*\(([^()]*)\)", text): clauses.setdefault(w, []).append(xs)
        if set(clauses) - {"private", "shared", "lastprivate", "schedule", "num_threads", "default", "if"} or re.search(r"\bordered\b", text): raise Unsupported("clause of a parallel loop")
        ids = {}
        for c in n.get("inner", []):
            if not c.get("kind"):
                walk(c, lambda x: ids.setdefault(x["referencedDecl"]["name"], set()).add(x["referencedDecl"]["id"]) if x.get("kind") == "DeclRefExpr" else None)
        named = lambda w: {i for xs in clauses.get(w, []) for x in xs.split(",") for i in ids.get(x.strip(), ())}
        own = set()
        walk(f, lambda x: own.add(x["id"]) if x.get("kind") == "VarDecl" else None)
        walk(f["inner"][3] if len(f["inner"]) > 3 else {}, lambda x: own.add(x["referencedDecl"]["id"]) if x.get("kind") == "DeclRefExpr" else None)
        return own, named("private"), named("lastprivate")

    def mentions_verbosity(self, f):
        a = the_atom(var("verbosity", "I"))
        return a in f.fv

    def run_IfStmt(self, n):
        parts = n["inner"]
        if n.get("hasInit") or n.get("hasVar"): raise Unsupported("if with init")
        c = self.boolv(self.ev(parts[0]))
        then, els = parts[1], (parts[2] if len(parts) > 2 else None)
        if self.mentions_verbosity(c):
            S0 = dict(self.store)
            pure = True
            for cond, br in ((c, then), (NOT(c), els)):
                if br is None: continue
                if self.env.decide(cond, 0) is False: continue
                self.store = dict(S0)
                self.env.push(); self.env.assume(cond)
                o0, a0 = self.outs, self.alive
                self.outs = []
                g = len(self.gstack); self.gstack.append(cond)
                self.merge += 1
                try:
                    self.run(br)
                finally:
                    self.merge -= 1
                    del self.gstack[g:]
                    self.env.pop()
                if self.outs or self.alive is not a0: pure = False
                self.outs, self.alive = o0, a0
                for r in S0:
                    if self.store.get(r) is not S0[r] and not self.same(self.store.get(r), S0[r]): pure = False
            self.store = S0
            self.oblige(TRUE if pure else FALSE, "purity", "code guarded by the verbosity changes no state", n)
            if pure: return
        d = self.branch(c)
        if d is True: return self.run(then)
        if d is False:
            if els: self.run(els)
            return
        c = self.simp(c)
        S0, A0 = self.store, self.alive
        res = []
        for cond, br in ((c, then), (NOT(c), els)):
            self.store = dict(S0)
            self.alive = TRUE
            g = len(self.gstack)
            self.gstack.append(cond)
            self.env.push(); self.env.assume(cond)
            if br is not None: self.run(br)
            extra = AND(*self.gstack[g + 1:])
            self.env.pop()
            del self.gstack[g:]
            res.append((AND(cond, extra) if self.alive is not FALSE else FALSE, self.store))
        (a1, s1), (a2, s2) = res
        if a1 is FALSE and a2 is FALSE:
            self.alive = FALSE
            self.store = s1
            return
        self.alive = A0
        if a1 is FALSE or a2 is FALSE:
            a, s = (a2, s2) if a1 is FALSE else (a1, s1)
            self.store = s
            self.gstack.append(a); self.env.assume(a)
            return
        self.store = self.merge_stores(c, s1, s2)
        al = OR(a1, a2)
        if al is not TRUE and not (a1 is c and a2 is NOT(c)):
            self.gstack.append(al); self.env.assume(al)

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.f.keys() == b.f.keys():
            return all(self.same(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.length is b.length and a.R is b.R and a.C is b.C and len(a.layers) == len(b.layers):
                return all(c1 is c2 and self.same(t1, t2) for (c1, t1), (c2, t2) in zip(a.layers, b.layers))
            return False
        if isinstance(a, Vec) and isinstance(b, Vec) and len(a.items) == len(b.items):
            return all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Ref) and isinstance(b, Ref): return a.root == b.root and a.path == b.path
        if isinstance(a, Str) and isinstance(b, Str): return a.s == b.s
        return False

    def merge_stores(self, c, s1, s2):
        out = dict(s2)
        for r, v1 in s1.items():
            v2 = s2.get(r)
            if r not in s2: out[r] = v1; continue
            if v1 is v2: continue
            out[r] = self.val_ite(c, v1, v2)
        return out

    # --------------------------------------------------------------- loops
    def run_ForStmt(self, n):
        init, cv, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init.get("kind"): self.run(init)
        self.loop(n, (lambda: self.boolv(self.ev(cond))) if cond.get("kind") else (lambda: TRUE),
                  lambda: self.run(body),
                  (lambda: self.ev(inc)) if inc.get("kind") else (lambda: None))

    def run_CXXForRangeStmt(self, n):
        """for (x : range)  ==  for (i = 0; i < size; i++) with x the i-th element"""
        ds = [c for c in n["inner"] if isinstance(c, dict) and c.get("kind") == "DeclStmt"]
        rng, lv, body = ds[0]["inner"][0], ds[-1]["inner"][0], n["inner"][-1]
        r = self.lv_or_temp(next(c for c in rng["inner"] if c.get("kind")))
        a = self.load(r)
        while isinstance(a, Ref): r = a; a = self.load(r)
        size = lambda v: (P(len(v.items)) if isinstance(v, Vec) else (self.rows(v) if v.tag == "nested" else v.length))
        if not isinstance(a, (Arr, Vec)): raise Unsupported("range-for over %r" % type(a))
        root = ("v", self.fr.id, "range " + str(lv["id"]))
        self.store[root] = ZERO
        cnt = Ref(root)
        t = lv["type"]["qualType"].rstrip()
        me = self.fr.alias.get(lv["id"])

        def go():
            el = r.idx((self.load(cnt),))
            if t.endswith("&"): self.fr.alias[lv["id"]] = el
            else:
                v = self.load(el)
                self.store[("v", self.fr.id, lv["id"])] = v
            self.run(body)
        self.loop(n, lambda: lt(self.load(cnt), size(self.load(r))), go, lambda: self.storeto(cnt, self.load(cnt) + 1))
        if me is None: self.fr.alias.pop(lv["id"], None)

    def run_GCCAsmStmt(self, n):
        """a barrier without operands: no effect on the values"""
        if children_of(n): raise Unsupported("asm with operands")

    def run_WhileStmt(self, n):
        cond, body = n["inner"][-2:]
        self.loop(n, lambda: self.boolv(self.ev(cond)), lambda: self.run(body), lambda: None)

    def run_DoStmt(self, n):
        body, cond = n["inner"][:2]
        # do S while(c)  ==  S; while(c) S     (no break/continue in S)
        o0 = len(self.outs)
        self.run(body)
        if len(self.outs) > o0 and self.outs[-1][1] in ("break", "continue"): raise Unsupported("break in do loop")
        if self.alive is FALSE: return
        if self.branch(self.boolv(self.ev(cond))) is False: return
        self.loop(n, lambda: self.boolv(self.ev(cond)), lambda: self.run(body), lambda: None)

    def loop(self, n, cond_fn, body_fn, inc_fn):
        for key, h in self.invariants.items():
            if h.matches(self, n):
                return h.run(self, n, cond_fn, body_fn, inc_fn)
        import loops
        loops.summarise(self, n, cond_fn, body_fn, inc_fn)
