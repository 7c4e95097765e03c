"""Mechanical extraction: clang's own AST of /repo's current sources.

Nothing is rewritten: every function that is verified is the typed AST that
clang builds from the file in /repo on this run.  What the extraction drops:
comments, debug print calls' text (their arguments are still executed), and
`#pragma omp` scheduling (the loop body is kept; see P08).
"""
import json, os, re, subprocess, hashlib, tempfile, functools

REPO = os.environ.get("VF_REPO", "/repo")
SRC = ["trap_managers.cpp", "traps.cpp", "ccd.cpp", "roe.cpp", "cti.cpp", "util.cpp",
       "read_noise.cpp"]


class ExtractError(Exception):
    pass


def _clang(tu, flt, extra=()):
    path = tu if os.path.isabs(tu) else os.path.join(REPO, "src", tu)
    cmd = ["clang++", "-fsyntax-only", "-std=c++11", "-fopenmp",
           "-I", os.path.join(REPO, "include"), *extra,
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (tu, p.stderr[-2000:]))
    docs, dec, s, i = [], json.JSONDecoder(), p.stdout, 0
    n = len(s)
    while i < n:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        if s[i] != "{":            # "Dumping xxx:" lines
            j = s.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


FN_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl")


def has_body(d):
    return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in d.get("inner", []))


class TU:
    """Declarations of one translation unit, dumped on demand by name filter."""

    def __init__(self, tu, extra=()):
        self.tu, self.extra = tu, extra
        self.filters = {}
        self.fn = {}          # qualified-ish key -> list of decl
        self.records = {}     # class name -> decl
        self.ids = {}         # id -> fn decl
        self.enums = {}       # enum name -> {constant: value}
        self.names = None

    def load(self, flt):
        if flt in self.filters:
            return
        docs = _clang(self.tu, flt, self.extra)
        self.filters[flt] = True
        for d in docs:
            self._walk(d, None, flt)

    def _walk(self, d, cls, flt):
        k = d.get("kind")
        if k == "CXXRecordDecl" and d.get("completeDefinition"):
            self.records[d.get("name")] = d
            for c in d.get("inner", []):
                self._walk(c, d.get("name"), flt)
            return
        if k == "EnumDecl":
            v = -1
            self.enums.setdefault(d.get("name"), {})
            for c in d.get("inner", []):
                if c.get("kind") != "EnumConstantDecl": continue
                e = next((x for x in c.get("inner", []) if "value" in x), None)
                v = int(e["value"]) if e else v + 1
                self.enums[d.get("name")][c["name"]] = v
            return
        if k == "NamespaceDecl":
            for c in d.get("inner", []):
                self._walk(c, cls, flt)
            return
        if k in FN_KINDS:
            unswitch(d)
            d["_tu"] = self
            d["_flt"] = flt
            owner = cls
            d["_cls"] = owner
            self.ids[(flt, d["id"])] = d
            if d.get("isImplicit") and not has_body(d) and k != "CXXConstructorDecl":
                pass
            self.fn.setdefault(d.get("name"), []).append(d)


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def unswitch(n):
    """every switch whose arms end in break or return (none falls through, none breaks from within) as a chain of ifs, in place"""
    for i, c in enumerate(n.get("inner", [])):
        if not isinstance(c, dict): continue
        unswitch(c)
        if c.get("kind") == "SwitchStmt":
            r = chain(c)
            if r is not None: n["inner"][i] = r


def chain(sw):
    def stays(x):
        return x.get("kind") == "BreakStmt" or (x.get("kind") not in LOOPS + ("LambdaExpr",) and any(stays(c) for c in x.get("inner", []) if isinstance(c, dict)))

    def pure(x):
        return x.get("kind") in ("DeclRefExpr", "MemberExpr", "CXXThisExpr", "ImplicitCastExpr", "ParenExpr") and all(pure(c) for c in x.get("inner", []))

    def ends(ss):
        if not ss: return False
        s = ss[-1]
        return s.get("kind") in ("BreakStmt", "ReturnStmt") or (s.get("kind") == "CompoundStmt" and ends(s.get("inner", [])))

    def cut(ss):
        ss = list(ss)
        if ss and ss[-1].get("kind") == "BreakStmt": return ss[:-1]
        if ss and ss[-1].get("kind") == "CompoundStmt": return ss[:-1] + [dict(ss[-1], inner=cut(ss[-1].get("inner", [])))]
        return ss
    parts = sw.get("inner", [])
    if len(parts) != 2 or not pure(parts[0]) or parts[1].get("kind") != "CompoundStmt": return None
    arms = []                            # (values, default?, statements)
    for s in parts[1].get("inner", []):
        labels, default, new = [], False, False
        while s.get("kind") in ("CaseStmt", "DefaultStmt"):
            new = True
            if s["kind"] == "DefaultStmt": default = True; s = s["inner"][0]
            else:
                if len(s["inner"]) != 2: return None
                labels.append(s["inner"][0]); s = s["inner"][1]
        if new:
            if arms and not ends(arms[-1][2]): return None
            arms.append((labels, default, [s]))
        elif arms: arms[-1][2].append(s)
        else: return None
    loc = {k: sw[k] for k in ("id", "range") if k in sw}
    test = lambda op, a, b: dict(loc, kind="BinaryOperator", opcode=op, type={"qualType": "bool"}, valueCategory="prvalue", inner=[a, b])
    out = None
    for labels, default, ss in [a for a in arms if a[1]] + [a for a in reversed(arms) if not a[1]]:
        if default and out is not None: return None
        ss = cut(ss)
        if any(stays(x) for x in ss): return None
        block = dict(loc, kind="CompoundStmt", inner=ss)
        if default: out = block; continue
        c = None
        for v in labels:
            t = test("==", parts[0], v)
            c = t if c is None else test("||", c, t)
        out = dict(loc, kind="IfStmt", inner=[c, block] + ([out] if out else []))
        if len(out["inner"]) == 3: out["hasElse"] = True
    return out or dict(loc, kind="CompoundStmt", inner=[])


class Program:
    def __init__(self, srcs=None, extra=(), classes=("TrapManager", "Trap", "CCD", "ROE")):
        self.tus = {}
        self.srcs = srcs or SRC
        self.extra = extra
        self.classes = classes
        self._lists = {}
        self._bodies = {}
        self.used = {}

    def tu(self, name):
        if name not in self.tus:
            self.tus[name] = TU(name, self.extra)
        return self.tus[name]

    @functools.lru_cache(None)
    def text(self, tu):
        path = tu if os.path.isabs(tu) else os.path.join(REPO, "src", tu)
        return open(path).read()

    @functools.lru_cache(None)
    def raw(self, tu):
        path = tu if os.path.isabs(tu) else os.path.join(REPO, "src", tu)
        return open(path, "rb").read()

    # ---- lookup --------------------------------------------------------
    def record(self, cls):
        for t in self.tus.values():
            if cls in t.records:
                return t.records[cls]
        for s in self.srcs:
            t = self.tu(s)
            t.load(cls)
            if cls in t.records:
                return t.records[cls]
        return None

    @functools.lru_cache(None)
    def enum(self, name):
        """constants of an enumeration, or None"""
        for s in self.srcs:
            if name not in self.text(s) and not any(name in self.header(h) for h in self.headers()): continue
            t = self.tu(s)
            t.load(name)
            if name in t.enums: return t.enums[name]
        return None

    @functools.lru_cache(None)
    def headers(self):
        return sorted(h for h in os.listdir(os.path.join(REPO, "include")) if h.endswith("pp"))

    @functools.lru_cache(None)
    def header(self, h):
        return open(os.path.join(REPO, "include", h)).read()

    def bases(self, cls):
        r = self.record(cls)
        return [b["type"]["qualType"] for b in (r or {}).get("bases", [])]

    def fields(self, cls):
        """ordered list of (name, qualType, initializer-or-None, static)"""
        r = self.record(cls)
        out = []
        for b in self.bases(cls):
            out += self.fields(b)
        for c in (r or {}).get("inner", []):
            if c.get("kind") == "FieldDecl":
                out.append((c["name"], c["type"].get("desugaredQualType", c["type"]["qualType"]),
                            c["inner"][0] if c.get("inner") else None, False))
        return out

    def method(self, cls, name, nargs=None, sig=None):
        """definition of cls::name, searching the bases; (decl, owner)"""
        d = self.method_here(cls, name, nargs, sig)
        if d is not None:
            return d, cls
        for b in self.bases(cls):
            r = self.method(b, name, nargs, sig)
            if r is not None:
                return r
        return None

    def _cands(self, name):
        out = []
        for s in self.srcs:
            if name not in self.text(s) and not any(
                    name in open(os.path.join(REPO, "include", h)).read()
                    for h in os.listdir(os.path.join(REPO, "include")) if h.endswith("pp")):
                continue
            t = self.tu(s)
            t.load(name)
            out += t.fn.get(name, [])
        return out

    def method_here(self, cls, name, nargs=None, sig=None):
        key = (cls, name, nargs, sig)
        if key in self._bodies:
            return self._bodies[key]
        res = []
        for s in self.srcs:
            txt = self.text(s)
            t = self.tu(s)
            if (cls + "::" + name) in txt.replace(" ", "") or cls in t.records:
                t.load(cls)
                for d in t.fn.get(name, []):
                    if not has_body(d):
                        continue
                    if d.get("_cls") == cls or self._owner(d, t) == cls:
                        if nargs is not None and not self._arity_ok(d, nargs):
                            continue
                        if sig is not None and d["type"]["qualType"] != sig:
                            continue
                        res.append(d)
        # inline definitions live in the record itself
        if not res:
            r = self.record(cls)
            for c in (r or {}).get("inner", []):
                if c.get("kind") in FN_KINDS and c.get("name") == name and has_body(c):
                    if nargs is not None and not self._arity_ok(c, nargs):
                        continue
                    res.append(c)
        out = res[0] if res else None
        if out is not None:
            out["_cls"] = cls
        self._bodies[key] = out
        return out

    def _arity_ok(self, d, n):
        ps = params(d)
        req = [p for p in ps if not p.get("init")]
        # defaults may live on the in-class declaration; be lenient downwards
        return n <= len(ps)

    def _owner(self, d, t):
        # out-of-line definition: find the record that holds previousDecl
        prev = d.get("previousDecl")
        if d.get("_cls"):
            return d["_cls"]
        for cname, r in t.records.items():
            for c in r.get("inner", []):
                if c.get("id") == prev or c.get("id") == d.get("parentDeclContextId"):
                    return cname
            if r.get("id") == d.get("parentDeclContextId"):
                return cname
        return None

    @functools.lru_cache(None)
    def defines(self, name):
        """does the repository itself define a free function of this name (shadowing the library's)?"""
        pat = re.compile(r"^\s*(?:static\s+|inline\s+)*(?:double|float|int|auto|long)\s+%s\s*\([^;]*?\)\s*\{" % re.escape(name), re.M | re.S)
        return any(pat.search(self.text(s)) for s in self.srcs)

    def function(self, name, nargs=None, sig=None):
        key = ("", name, nargs, sig)
        if key in self._bodies:
            return self._bodies[key]
        res = [d for d in self._cands(name)
               if d["kind"] == "FunctionDecl" and has_body(d)
               and (nargs is None or self._arity_ok(d, nargs))
               and (sig is None or d["type"]["qualType"] == sig)]
        out = res[0] if res else None
        self._bodies[key] = out
        return out


def params(d):
    return [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def body(d):
    for c in d.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


def line_of(n, default=None):
    for key in ("loc", "range"):
        l = n.get(key) or {}
        if key == "range":
            l = l.get("begin", {})
        for q in (l, l.get("expansionLoc", {}), l.get("spellingLoc", {})):
            if "line" in q:
                return q["line"]
    return default
