"""Explore all paths of verification tasks; collect obligations.

Every path split forks the verifier process, so that the two sides share the work
done so far; a pool of tokens bounds how many run at once."""
import os, sys, time, traceback, pickle, tempfile, shutil, signal
import terms as TT
from terms import reset_fresh
from values import Unsupported
from exec import PathEnd, Infeasible
from interp import Interp
import cast, solver


class TaskResult:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.infeasible = 0
        self.unsupported = []
        self.inlined = set()
        self.contracted = set()
        self.time = 0.0
        self.loops = 0
        self.covers = 0
        self.stats = {"queries": 0, "z3_s": 0.0, "by": {}}


class Pool:
    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.write(self.w, b"x" * n)
    def acquire(self):
        while True:
            b = os.read(self.r, 1)
            if b: return
    def release(self):
        os.write(self.w, b"x")


class Forker:
    def __init__(self, pool, outdir, deadline, max_paths):
        self.pool, self.outdir, self.deadline = pool, outdir, deadline
        self.children = []
        self.max_paths = max_paths

    def __call__(self, ex, n):
        if time.time() > self.deadline: raise Unsupported("time budget exhausted")
        sys.stdout.flush(); sys.stderr.flush()
        for i in range(1, n):
            try:
                pid = os.fork()
            except OSError:
                raise Unsupported("cannot fork")
            if pid == 0:
                self.children = []
                self.pool.acquire()
                ex.obls = []
                solver.STATS.update(queries=0, z3_s=0.0, by={})
                ex.stats["loops"] = 0
                ex.t_path = time.time()
                ex.choices.append(i)
                return i
            self.children.append(pid)
        ex.choices.append(0)
        return 0


def _run_path(name, ex, fn, forker, verbose):
    """runs in its own process, to the end of every path that splits off it"""
    d = dict(unsupported=None, end="ok")
    root = os.getpid()
    try:
        fn(ex)
    except PathEnd:
        d["end"] = "end"
    except Infeasible:
        d["end"] = "infeasible"
    except Unsupported as e:
        d["end"] = "unsupported"
        inc = False
        try: inc = ex.env.inconsistent(2)
        except Unsupported: pass
        if inc: d["end"] = "infeasible"
        else:
            d["unsupported"] = "%s:%s: %s" % (ex.fnstack[-1] if ex.fnstack else "?", ex.cur_line, str(e)[:300])
            if verbose: traceback.print_exc()
    except cast.ExtractError as e:
        d["end"] = "extract"
        d["unsupported"] = str(e)[:500]
    except RecursionError:
        d["end"] = "recursion"
        d["unsupported"] = "recursion limit"
    except Exception as e:
        d["end"] = "internal"
        d["unsupported"] = "%s:%s: internal: %r" % (ex.fnstack[-1] if ex.fnstack else "?", ex.cur_line, e)
        if verbose: traceback.print_exc()
    d["obls"] = [(o.fn, o.line, o.kind, o.text, o.ok, o.facts, o.path) for o in ex.obls]
    d["inlined"], d["contracted"] = ex.inlined, ex.contracted
    d["loops"] = ex.stats["loops"]
    d["stats"] = dict(solver.STATS)
    if verbose:
        print("  path %s  %.1fs obl=%d fail=%d <%s> %s" % (d["end"], time.time() - ex.t_path, len(ex.obls), sum(not o.ok for o in ex.obls), ','.join(map(str, ex.choices)),
              "; ".join(p[:70] for p in ex.pathdesc)[-900:]))
        sys.stdout.flush()
    with open(os.path.join(forker.outdir, "%d.pkl" % os.getpid()), "wb") as f: pickle.dump(d, f)
    forker.pool.release()
    for p in forker.children:
        try: os.waitpid(p, 0)
        except ChildProcessError: pass


def start(name, prog, fn, contracts=None, pool=None, verbose=False, budget=600, invariants=None, max_paths=4000):
    """start a task in a child process; returns a handle for finish()"""
    out = tempfile.mkdtemp(prefix="vf_")
    t0 = time.time()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            pool.acquire()
            reset_fresh(); TT.clear_memos()
            fk = Forker(pool, out, time.time() + budget, max_paths)
            ex = Interp(prog, contracts, fk, verbose)
            ex.deadline = fk.deadline
            ex.env.deadline = fk.deadline
            ex.t_path = time.time()
            if invariants: ex.invariants = invariants
            _run_path(name, ex, fn, fk, verbose)
        except BaseException as e:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
    return (name, pid, out, t0)


def finish(h):
    name, pid, out, t0 = h
    _, st = os.waitpid(pid, 0)
    res = TaskResult(name)
    import exec as X
    for fn in sorted(os.listdir(out)):
        if not fn.endswith(".pkl"): continue
        d = pickle.load(open(os.path.join(out, fn), "rb"))
        res.paths += 1
        if d["end"] == "infeasible": res.infeasible += 1
        if d["end"] in ("ok", "end"): res.covers += 1
        if d["unsupported"]: res.unsupported.append(d["unsupported"])
        for t in d["obls"]:
            o = X.Oblig()
            o.fn, o.line, o.kind, o.text, o.ok, o.facts, o.path = t
            res.obls.append(o)
        res.inlined |= d["inlined"]; res.contracted |= d["contracted"]
        res.loops += d["loops"]
        for k in ("queries", "z3_s"): res.stats[k] += d["stats"][k]
        for k, v in d["stats"]["by"].items(): res.stats["by"][k] = res.stats["by"].get(k, 0) + v
    if st != 0: res.unsupported.append("verifier process ended with status %d" % st)
    shutil.rmtree(out, ignore_errors=True)
    res.time = time.time() - t0
    return res


def explore(name, prog, fn, contracts=None, verbose=False, budget=600, invariants=None, jobs=8, **kw):
    return finish(start(name, prog, fn, contracts, Pool(jobs), verbose, budget, invariants))
