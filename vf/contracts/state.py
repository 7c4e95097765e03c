"""Contracts of saving, restoring, resetting and initialising trap states (P07)."""
from contracts.base import *
from invariant import equal, Mods

LIVE = ("watermark_volumes", "watermark_fills", "n_active_watermarks", "i_first_active_wmk")
SAVED = tuple("stored_" + f for f in LIVE)
KINDS = (("ic", "InstantCapture"), ("sc", "SlowCapture"), ("ic_co", "InstantCaptureContinuum"), ("sc_co", "SlowCaptureContinuum"))


def arrays(name, at, NW, T):
    """an array of the storage's size; at: leading index terms"""
    return (fun_arr(lambda r: app("V" + name, at + [r]), NW), fun_arr(lambda r: app("F" + name, at + [r]), T * NW))


def manager(cls, tag, at):
    """an arbitrary manager of one trap type: every field arbitrary, live and saved states too"""
    mk = lambda n, s="I": app(tag + n, at, s) if at else var(tag + n, s)
    NW, T = var(tag + "NW", "I"), var(tag + "T", "I")     # the same for every phase
    V, F = arrays(tag, at, NW, T)
    SV, SF = arrays(tag + "s", at, NW, T)
    o = {"watermark_volumes": V, "watermark_fills": F, "stored_watermark_volumes": SV, "stored_watermark_fills": SF}
    for n in ("n_active_watermarks", "i_first_active_wmk", "stored_n_active_watermarks", "stored_i_first_active_wmk",
              "n_watermarks_per_transfer", "max_n_transfers"): o[n] = mk(n)
    o["n_traps"], o["n_watermarks"] = T, NW
    for n in ("zeroth_watermark", "empty_watermark", "dwell_time"): o[n] = mk(n, "R")
    o["zeroth_watermark"] = o["empty_watermark"] = ZERO
    return Obj(cls, o)


def sizes(ex, tag):
    ex.env.assume(AND(ge(var(tag + "NW", "I"), 1), ge(var(tag + "T", "I"), 1)))


def empty(ex, got, ref, text):
    """an empty trap state"""
    ex.oblige(eq(got.f["n_active_watermarks"], 0), "post", text + ": no active level")
    ex.oblige(eq(got.f["i_first_active_wmk"], 0), "post", text + ": first level is 0")
    for f in LIVE[:2]:
        equal(ex, got.f[f], const_arr(ZERO, ref.f[f].length), "post", "%s: %s" % (text, f))


def unchanged(ex, got, old, but, text):
    for f in old.f:
        if f not in but: equal(ex, got.f[f], old.f[f], "frame", "%s leaves %s alone" % (text, f))


def check_op(ex, op, old, new):
    if op == "store":
        for l, s in zip(LIVE, SAVED): equal(ex, new.f[s], old.f[l], "post", "%s is the current %s" % (s, l))
        unchanged(ex, new, old, SAVED, "saving")
    elif op == "restore":
        for l, s in zip(LIVE, SAVED): equal(ex, new.f[l], old.f[s], "post", "%s is the saved one" % l)
        unchanged(ex, new, old, LIVE, "restoring")
    elif op == "initialise":
        n = old.f["max_n_transfers"] * old.f["n_watermarks_per_transfer"] + 1
        T = old.f["n_traps"]
        ex.oblige(eq(new.f["n_watermarks"], n), "post", "storage for one level more than transfers times levels made in each")
        for f, ln in (("watermark_volumes", n), ("watermark_fills", n * T)):
            for g in (f, "stored_" + f):
                equal(ex, new.f[g], const_arr(ZERO, ln), "post", "%s is empty and of the storage's size" % g)
        for g in LIVE[2:]: equal(ex, new.f["stored_" + g], old.f[g], "post", "the saved %s is the current one" % g)
        unchanged(ex, new, old, LIVE[:2] + SAVED + ("n_watermarks",), "initialising")
    else:
        empty(ex, new, old, "reset")
        unchanged(ex, new, old, LIVE, "resetting")


def one(cls, op):
    def go(ex):
        sizes(ex, "m")
        old = manager(cls, "m", [])
        ex.env.assume(AND(ge(old.f["max_n_transfers"], 0), ge(old.f["n_watermarks_per_transfer"], 1)))
        ref = put(ex, "manager", old)
        call(ex, cls, op + "_trap_states", ref, [])
        with at(ex, "%s::%s_trap_states" % (cls, op)): check_op(ex, op, old, ex.load(ref))
    return go


def collection(op):
    """TrapManagerManager: the operation on every phase of every trap type in use"""
    def go(ex):
        NP = I("n_phases")
        ex.env.assume(ge(NP, 1))
        o = {"max_n_transfers": I("max_n_transfers"), "ccd": Obj("CCD", {"n_phases": NP})}
        for k, c in KINDS:
            sizes(ex, k)
            o["n_traps_" + k] = I("n_traps_" + k)
            ex.env.assume(ge(o["n_traps_" + k], 0))
            o["trap_managers_" + k] = fun_arr(lambda r, k=k, c=c: manager("TrapManager" + c, k, [r]), NP)
        old = Obj("TrapManagerManager", o)
        ref = put(ex, "managers", old)
        call(ex, "TrapManagerManager", op + "_trap_states", ref, [])
        with at(ex, "TrapManagerManager::%s_trap_states" % op):
            new = ex.load(ref)
            p = element(ex, NP, "phase")
            for k, c in KINDS:
                f = "trap_managers_" + k
                a, b = ex.read(o[f], (p,)), ex.read(new.f[f], (p,))
                if ex.branch(gt(o["n_traps_" + k], 0)): check_op(ex, op, a, b)
                else: equal(ex, b, a, "frame", "traps that are not in use stay as they are")
                ex.oblige(eq(new.f[f].length, NP), "frame", "the number of phases stays")
            for f in o:
                if not f.startswith("trap_managers_"): equal(ex, new.f[f], o[f], "frame", "%s is left alone" % f)
    return go


OPS = ("store", "restore", "reset", "initialise")


def untouched(ex):
    """modifies clauses: apart from the four operations, no function so much as names a saved field,
    and no manager is overwritten as a whole after it has been made"""
    prog = ex.prog
    own = {o + "_trap_states" for o in OPS}
    done = 0
    for cls in ["TrapManagerBase"] + ["TrapManager" + c for k, c in KINDS] + ["TrapManagerManager"]:
        rec = prog.record(cls)
        if rec is None: raise Unsupported("class " + cls)
        seen = set()
        for c in rec.get("inner", []):
            if c.get("kind") not in cast.FN_KINDS or c.get("name") in own or c.get("isImplicit"): continue
            key = (c["name"], len(cast.params(c)))
            if key in seen: continue
            seen.add(key)
            d = c if cast.has_body(c) else prog.method_here(cls, c["name"], len(cast.params(c)))
            if d is None: continue
            scan(cast.body(d), "%s::%s" % (cls, c["name"]), c["kind"] == "CXXConstructorDecl")
            with at(ex, "%s::%s" % (cls, c["name"])): ex.oblige(TRUE, "frame", "the saved trap states are left alone")
            done += 1
    for src in prog.srcs:
        if src == "trap_managers.cpp": continue
        t = prog.text(src)
        if any(f in t for f in SAVED): raise Unsupported("%s names the saved trap states" % src)
        with at(ex, src): ex.oblige(TRUE, "frame", "the saved trap states are left alone")
    if done < 10: raise Unsupported("methods of the trap managers not found")


def scan(n, where, ctor):
    if n.get("kind") == "MemberExpr" and n.get("name") in SAVED: raise Unsupported("%s uses %s" % (where, n["name"]))
    if n.get("kind") == "CXXOperatorCallExpr" and not ctor and "TrapManager" in n.get("type", {}).get("qualType", ""):
        f = n["inner"][0]
        while f.get("inner"): f = f["inner"][0]
        if (f.get("referencedDecl") or {}).get("name") == "operator=": raise Unsupported("%s overwrites a trap manager" % where)
    for c in n.get("inner", []):
        if isinstance(c, dict): scan(c, where, ctor)
