#!/usr/bin/env python3-vt
"""Decide one property on /repo's current working tree.

  check.py <property> [quick|thorough]

1. extract the functions from /repo (clang's AST of the current sources) and discharge
   every obligation generated from their contracts;
2. run the executable form of the same contracts (replay harness) against the real
   code, compiled with sanitizers: it monitors what the proof assumes (doubles as
   reals, library functions), searches a failing input for an undischarged
   obligation, and stands in, bounded, for a function the verifier cannot take.
"""
import sys, os, time, json, subprocess, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vf"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VF_REPO", "/repo")
os.environ.setdefault("OMP_NUM_THREADS", "4")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try:
        return run(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid): out.append(l[len("finding: "):])
    return out


def run(pid, tier, seed, scratch, t0):
    import props, harness, driver, cast
    p = props.PROPS[pid]()
    thorough = tier == "thorough"
    hs = [harness.Harness(r, scratch, seed, pid) for r in p.replay]
    for h in hs: h.build_start()
    baseline = load_baseline()
    # ---------------------------------------------------------------- proof
    results, perr = [], None
    pool = driver.Pool(8)
    handles = []
    if p.tasks:
        try:
            prog = (p.program or cast.Program)()
            for t in p.tasks:
                if t.thorough_only and not thorough: continue
                handles.append((t, driver.start(t.name, prog, t.fn, t.contracts, pool, bool(os.environ.get("VF_VERBOSE")),
                                                t.budget if not thorough else max(t.budget, 2400), t.invariants)))
            for t, h in handles: results.append((t, driver.finish(h)))
        except cast.ExtractError as e:
            perr = "extraction: %s" % str(e)[:400]
    if os.environ.get("VF_REPORT"):
        for t, r in results:
            print("TASK %-50s paths %4d obl %5d ok %5d  %.1fs %s" % (t.name, r.paths, len(r.obls), sum(o.ok for o in r.obls), r.time, r.unsupported[:3]))
    failed, undecided, known_un, nobl, nok = [], [], [], 0, 0
    per = []
    for t, r in results:
        obls = [o for o in r.obls if t.kinds is None or o.kind in t.kinds]
        bad = {}
        for o in obls:
            if not o.ok: bad.setdefault((o.fn, o.kind, o.text), o)
        nobl += len(obls); nok += sum(o.ok for o in obls)
        base = baseline.get(t.name, {})
        for k, o in bad.items():
            key = "|".join(k)
            if key in base.get("undischarged", []): known_un.append((t, o))
            else: failed.append((t, o))
        for u in sorted(set(r.unsupported)): undecided.append((t.name, u))
        if not obls and not r.unsupported: undecided.append((t.name, "no obligations were generated"))
        if obls and r.covers == 0 and not r.unsupported: undecided.append((t.name, "the precondition cannot be met (vacuous)"))
        per.append(dict(task=t.name, paths=r.paths, infeasible=r.infeasible, obligations=len(obls),
                        discharged=sum(o.ok for o in obls), loops=r.loops, reached_end=r.covers,
                        verified=sorted(r.inlined), by_contract=sorted(r.contracted), queries=r.stats["queries"],
                        solver_s=round(r.stats["z3_s"], 1), backends=r.stats["by"], wall_s=round(r.time, 1),
                        undecided=sorted(set(r.unsupported))[:5]))
    if perr: undecided.append(("extraction", perr))
    proof_clean = not failed and not undecided and not known_un and bool(results)
    # ---------------------------------------------------------------- replay
    ev = 0
    viol = None
    samples, herr = [], []
    for h in hs:
        ok, why = h.build_wait()
        if not ok: herr.append("%s: %s" % (h.spec.src, why[-600:])); continue
        full = thorough or not proof_clean
        r = h.search(h.spec.budget * (6 if thorough else 1) * (1 if proof_clean or thorough else 1.6))
        ev += r.cases
        samples += r.samples
        if r.error: herr.append("%s: %s" % (h.spec.src, r.error[-600:]))
        if r.fail and viol is None: viol = (h, r)
    if viol is None and failed:
        left = 600 - (time.time() - t0)
        for h in hs:
            if h.ok and left > 30:
                r = h.search(min(60, left / max(1, len(hs))), salt=7)
                ev += r.cases
                if r.fail: viol = (h, r); break
    # ---------------------------------------------------------------- verdict
    for l in known_findings(pid): print("KNOWN-FINDING: " + l)
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    code, nv = 0, 0
    if viol:
        h, r = viol
        path = os.path.join(rdir, "%s.replay" % pid)
        with open(path, "w") as f:
            f.write("# property %s fails on the real code: %s\n# run again: %s\n" % (pid, r.why, h.replay_cmd(path)))
            for t, o in failed[:8]: f.write("# failed obligation: %s %s: %s (%s)\n" % (o.fn, o.kind, o.text, t.name))
            f.write(r.text)
        print("property %s: %s" % (pid, r.why))
        for t, o in failed[:5]: print("failed obligation: %s %s: %s (%s)" % (o.fn, o.kind, o.text, t.name))
        print("VIOLATION property=%s replay=%s" % (pid, path)); code = 1; nv = 1
    elif failed:
        path = os.path.join(rdir, "%s.obligation" % pid)
        with open(path, "w") as f:
            for t, o in failed:
                f.write("task: %s\nfunction: %s line %s\nobligation: %s: %s\n" % (t.name, o.fn, o.line, o.kind, o.text))
                if o.facts: f.write("goal: %s\nfacts:\n  %s\n\n" % (o.facts[1][:3000], "\n  ".join(x[:400] for x in o.facts[0][:60])))
        t, o = failed[0]
        print("failed obligation: %s %s: %s (%s)" % (o.fn, o.kind, o.text, t.name))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)); code = 1; nv = 1
    elif not results and not ev or (herr and not proof_clean and not ev):
        print("no answer: " + "; ".join(herr) + "; ".join("%s: %s" % u for u in undecided)); code = 2
    level = "proof" if proof_clean and not p.bounded else ("other" if nok else "exploration")
    cov = dict(obligations=nobl, discharged=nok, checker_cmd="python3-vt check.py %s %s (vf: contract verifier over clang's AST; back end z3 %s)" % (pid, tier, z3v()),
               trusted_base=p.trusted, tasks=per, solver_s=round(sum(x["solver_s"] for x in per), 1),
               evaluations=ev, distinct_nontrivial=ev,
               rule="randomly generated cases run against the real code compiled with address and undefined-behaviour sanitizers; every case has at least one operation",
               samples=(samples or ["(no replay search in this run)"])[:3])
    if p.bounded: cov["bounded"] = p.bounded
    if undecided: cov["undecided_by_the_verifier"] = ["%s: %s" % u for u in undecided][:20]
    if known_un: cov["undischarged_on_the_unchanged_tree"] = ["%s %s: %s" % (o.fn, o.kind, o.text) for t, o in known_un][:20]
    if herr: cov["harness_errors"] = herr
    if level != "proof":
        cov["explanation"] = ("not everything is proved: what is listed under bounded / undecided / undischarged is covered by the "
                              "bounded replay search only (evaluations cases), never counted as proved")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=p.assumptions,
                   wall_s=round(time.time() - t0, 1), violations=nv),
              open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    if code == 0:
        print("%s held: %d/%d obligations discharged%s, %d cases replayed, %.0f s" % (
            pid, nok, nobl, "" if proof_clean else " (%d undecided: bounded stand-in)" % (len(undecided) + len(known_un)), ev, time.time() - t0))
    return code


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def load_baseline():
    p = os.path.join(HERE, "vf", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


if __name__ == "__main__":
    try:
        c = main()
    except Exception:
        traceback.print_exc(); c = 2
    sys.stdout.flush()
    os._exit(c)
