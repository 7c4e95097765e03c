"""P25: nothing but printed text depends on the verbosity.

A modifies clause on every function, checked on the syntax tree: what is conditional on the verbosity
(directly, through a local computed from it, or through an argument) assigns nothing that other code
reads, leaves no loop or function early, and calls only functions that print."""
import re
from contracts.base import *
from invariant import children, strip, root_of

PRINTS = {"printf", "fprintf", "fflush", "puts", "putchar", "strrchr", "operator<<", "endl", "setw", "setprecision"}
READS = {"size", "operator[]", "begin", "end", "data", "c_str", "sum", "min", "max", "empty", "abs", "fabs", "operator+", "operator-", "operator*",
         "operator/", "operator<", "operator>", "operator==", "operator!=", "sqrt", "exp", "log", "pow", "fmin", "fmax"}
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
OUT = ("ReturnStmt", "CXXThrowExpr", "GotoStmt", "CXXNewExpr", "CXXDeleteExpr", "LambdaExpr", "GCCAsmStmt")


def definitions(text):
    """names of the functions defined in a source file, by brace depth"""
    t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
    t = re.sub(r'"(?:\\.|[^"\\\n])*"', '""', t)
    t = re.sub(r"'(?:\\.|[^'\\\n])'", "' '", t)
    t = re.sub(r"^[ \t]*#(?:[^\n]*\\\r?\n)*[^\n]*", " ", t, flags=re.M)
    out, depth, start = [], 0, 0
    for i, c in enumerate(t):
        if c == "{":
            if depth == 0:
                head = t[start:i]
                m = re.search(r"((?:\w+\s*::\s*)*(?:~?\w+|operator\s*[^\s\w(]+))\s*\(", head)
                if m and not re.search(r"\b(class|struct|enum|namespace|union)\b\s*\w*\s*$", head): out.append(re.sub(r"\s", "", m.group(1)))
                elif re.search(r"\b(namespace|extern)\b", head): raise Unsupported("definitions inside a block")
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0: start = i + 1
        elif c == ";" and depth == 0: start = i + 1
    return out


class Flow:
    def __init__(self, prog):
        self.prog, self.fns = prog, []
        for s in prog.srcs:
            for q in sorted(set(definitions(prog.text(s)))):
                name = q.split("::")[-1]
                t = prog.tu(s); t.load(name)
                for d in t.fn.get(name, []):
                    if cast.has_body(d) and all(d is not x[1] for x in self.fns): self.fns.append((q, d))
        self.params = set()            # (function name, index of a parameter that depends on the verbosity)
        self.local = {}
        self.pure = {}
        self.changed = True

    def run(self):
        while self.changed:
            self.changed = False
            for q, d in self.fns: self.function(q, d)

    def function(self, q, d):
        self.q, self.d = q, d
        self.T = self.local.setdefault(id(d), set())
        for i, p in enumerate(cast.params(d)):
            if (d["name"], i) in self.params or p.get("name") == "verbosity":
                if p["type"]["qualType"].rstrip().endswith("&") or "*" in p["type"]["qualType"]: raise Unsupported("%s: the verbosity is passed by reference" % q)
                if d["name"] != "set_verbosity": self.T.add(p["id"])
        for c in d.get("inner", []):
            if c.get("kind") == "CXXCtorInitializer" and self.tainted(c): raise Unsupported("%s: a member depends on the verbosity" % q)
        self.stmt(cast.body(d), False, set())

    # does an expression depend on the verbosity?
    def tainted(self, n):
        if n.get("kind") == "StmtExpr": return False
        if n.get("kind") == "DeclRefExpr":
            r = n.get("referencedDecl") or {}
            return r.get("id") in self.T or (r.get("kind") == "VarDecl" and r.get("name") == "verbosity")
        return any(self.tainted(c) for c in children(n))

    def taint(self, i):
        if i not in self.T: self.T.add(i); self.changed = True

    def stop(self, why): raise Unsupported("%s: %s" % (self.q, why))

    def stmt(self, n, guarded, own, loop=False):
        """own: variables declared inside the guarded code"""
        k = n.get("kind")
        if k == "IfStmt":
            ch = children(n)
            self.stmt(ch[0], guarded, own, loop)
            g = guarded or self.tainted(ch[0])
            for c in ch[1:]: self.stmt(c, g, own, loop if guarded else False)
            return
        if k in LOOPS:
            body = children(n)[-1 if k != "DoStmt" else 0]
            for c in children(n):
                if c is not body and self.tainted(c): self.stop("a loop depends on the verbosity")
                self.stmt(c, guarded, own, guarded or loop)
            return
        if k == "SwitchStmt" and self.tainted(children(n)[0]): self.stop("a switch depends on the verbosity")
        if k in ("BreakStmt", "ContinueStmt"):
            if guarded and not loop: self.stop("a loop is left depending on the verbosity")
            return
        if k in OUT and guarded: self.stop("%s depends on the verbosity" % k)
        if k == "ReturnStmt" and any(self.tainted(c) for c in children(n)): self.stop("the result depends on the verbosity")
        if k == "VarDecl":
            if guarded: own.add(n["id"])
            if any(self.tainted(c) for c in children(n)):
                if "&" in n["type"]["qualType"]: self.stop("a reference to the verbosity")
                self.taint(n["id"])
        if (k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">=")) or \
           (k == "UnaryOperator" and n["opcode"] in ("++", "--")):
            ch = children(n)
            t = strip(ch[0])
            r = t.get("referencedDecl") or {}
            if guarded or any(self.tainted(c) for c in ch[1:]):
                if self.d["name"] == "set_verbosity": pass
                elif t.get("kind") == "DeclRefExpr" and r.get("kind") == "VarDecl" and "&" not in r["type"]["qualType"] and self.here(r["id"]):
                    if r["id"] not in own: self.taint(r["id"])
                else: self.stop("code that depends on the verbosity assigns %s" % (r.get("name") or t.get("name") or t.get("kind")))
            elif self.tainted(ch[0]) and t.get("kind") != "DeclRefExpr": self.stop("an address depends on the verbosity")
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): self.call(n, guarded)
        elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and guarded and not re.match(r"(const )?(std::)?(__cxx11::)?(basic_string|string|allocator|valarray|_Expr|vector|slice|initializer_list)\b", n["type"]["qualType"]):
            self.stop("an object is made depending on the verbosity")
        elif k == "ConditionalOperator" and self.tainted(children(n)[0]):
            for c in children(n)[1:]: self.stmt(c, True, own, loop)
            return
        elif k == "BinaryOperator" and n["opcode"] in ("&&", "||") and self.tainted(children(n)[0]):
            self.stmt(children(n)[1], True, own, loop)
            return
        for c in children(n): self.stmt(c, guarded, own, loop)

    def here(self, i):
        """is this variable a local of the function?"""
        def find(n): return (n.get("kind") == "VarDecl" and n.get("id") == i and n.get("storageClass") != "static") or any(find(c) for c in children(n))
        return find(self.d)

    def callee(self, n):
        f = strip(children(n)[0])
        return f.get("name") if f.get("kind") == "MemberExpr" else (f.get("referencedDecl") or {}).get("name", "?")

    def call(self, n, guarded):
        name = self.callee(n)
        args = children(n)[1:]
        mine = [d for q, d in self.fns if d["name"] == name]
        if name == "set_verbosity" and not guarded: return
        if guarded and name not in PRINTS and name not in READS:
            if not mine: self.stop("%s is called depending on the verbosity" % name)
            for d in mine: self.prints_only(d)
        for i, a in enumerate(args):
            if not self.tainted(a): continue
            if name in PRINTS: continue
            if not mine: self.stop("the verbosity is passed to %s" % name)
            if (name, i) not in self.params: self.params.add((name, i)); self.changed = True

    def prints_only(self, d):
        """the function assigns nothing but its own locals and calls only functions that print"""
        if id(d) in self.pure: return
        self.pure[id(d)] = True
        for p in cast.params(d): pass

        def go(n, own):
            k = n.get("kind")
            if k == "VarDecl": own.add(n["id"])
            if k == "VarDecl" and "&" in n["type"]["qualType"] and "const" not in n["type"]["qualType"]: self.stop("%s keeps a reference" % d["name"])
            if k in OUT and k != "ReturnStmt": self.stop("%s: %s" % (d["name"], k))
            if (k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">=")) or \
               (k == "UnaryOperator" and n["opcode"] in ("++", "--")):
                r = root_of(children(n)[0])
                if r is None or r[0] != "v" or r[1] not in own: self.stop("%s, which is called depending on the verbosity, assigns something" % d["name"])
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                name = self.callee(n)
                if name.startswith("operator") and name.endswith("=") and name not in ("operator==", "operator!=", "operator<=", "operator>="):
                    r = root_of(children(n)[1])
                    if r is None or r[1] not in own: self.stop("%s, which is called depending on the verbosity, assigns something" % d["name"])
                elif name not in PRINTS and name not in READS:
                    mine = [x for q, x in self.fns if x["name"] == name]
                    if not mine: self.stop("%s calls %s" % (d["name"], name))
                    for x in mine: self.prints_only(x)
            for c in children(n): go(c, own)
        own = {p["id"] for p in cast.params(d) if "&" not in p["type"]["qualType"] and "*" not in p["type"]["qualType"]}
        go(cast.body(d), own)


def only_printing(ex):
    prog = cast.Program(list(ex.prog.srcs) + [s for s in ("main.cpp",) if s not in ex.prog.srcs])
    f = Flow(prog)
    f.run()
    n = 0
    for q, d in f.fns:
        with at(ex, q): ex.oblige(TRUE, "frame", "only printed text depends on the verbosity")
        n += 1
    if n < 60: raise Unsupported("only %d function definitions found" % n)
    if not any("verbosity" in h for h in map(prog.header, prog.headers())): raise Unsupported("the verbosity is not declared")
