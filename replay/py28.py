"""Executable contract for the Python layer's bookkeeping (P28), run on /repo's real Python sources.

The compiled extension is replaced by a recorder: the contract is about what reaches
it and what is done with what it returns. Same command line as the C++ harnesses.
"""
import sys, os, re, json, random, time, types, io, contextlib
REPO = os.environ.get("VF_REPO", "/repo")
sys.dont_write_bytecode = True


class Any(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return lambda *a, **kw: None


for n in ("matplotlib", "matplotlib.pyplot"): sys.modules[n] = Any(n)
try:
    import scipy.optimize
except Exception:
    for n in ("scipy", "scipy.optimize"): sys.modules[n] = Any(n)
import numpy as np
src = open(os.path.join(REPO, "python/arcticpy/wrapper.pyx")).read()
sig = src[src.index("def cy_add_cti("):]; sig = sig[sig.index("(") + 1:sig.index("):")]
sig = re.sub(r"#.*", "", sig)
NAMES = [re.split(r"\s+", a.strip())[-1] for a in re.sub(r"np\.ndarray\[[^\]]*\]", "arr", sig).split(",") if a.strip()]
calls, models = [], []
wrap = types.ModuleType("wrapper")


def cy_add_cti(*a, **k):
    d = dict(zip(NAMES, a)); d.update(k)
    calls.append({n: (np.copy(v) if isinstance(v, np.ndarray) else v) for n, v in d.items()})
    img = d["image"]
    out = models[0](np.copy(img)) if models else np.copy(img)
    img[...] = out          # as the extension does: in place, returning the same array
    return img


wrap.cy_add_cti = cy_add_cti
wrap.cy_print_version = lambda: None
wrap.cy_version_arctic = lambda: "0"
for n in ("cy_print_array", "cy_print_array_2D", "cy_determine_read_noise_model"): setattr(wrap, n, lambda *a: None)
pkg = os.path.join(REPO, "python")
sys.path.insert(0, pkg)
sys.modules["arcticpy.wrapper"] = wrap; sys.modules["wrapper"] = wrap
import arcticpy as ac
ac.wrapper = wrap


class Fail(Exception): pass


def check(c, m):
    if not c: raise Fail(m)


def same(a, b): return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


KINDS = ["TrapInstantCapture", "TrapSlowCapture", "TrapInstantCaptureContinuum", "TrapSlowCaptureContinuum"]


def draw(r):
    def traps():
        if r.random() < 0.15: return None
        return [dict(kind=r.randrange(4), p=[r.uniform(0.1, 50) for _ in range(4)]) for _ in range(r.randint(1, 7))]
    def roe(): return dict(kind=r.choice([0, 0, 1, 2]), dwell=[r.uniform(0.1, 3) for _ in range(r.randint(1, 4))], prescan=r.randint(0, 9), plen=r.randint(0, 5), over=r.randint(-1, 30),
                           b=[r.random() < 0.5 for _ in range(4)], pumps=r.randint(1, 9), pix=r.randint(0, 99), noise=r.uniform(0, 9))
    def ccd(n): return dict(ph=[[r.uniform(1, 1e5), r.uniform(0, 9), r.uniform(0.1, 1), r.uniform(0, 1)] for _ in range(n)], fr=[r.random() for _ in range(n)])
    nr, nc = r.randint(1, 5), r.randint(1, 6)
    c = dict(image=[[r.uniform(-100, 5000) for _ in range(nc)] for _ in range(nr)], model=[r.uniform(0.5, 0.95), r.uniform(-3, 3)], it=r.randint(0, 5), neg=r.random() < 0.7,
             bounce=[[r.uniform(-0.1, 0.1), r.uniform(-0.1, 0.1), r.uniform(0, 2), r.uniform(0, 2)] for _ in range(r.randint(0, 2))])
    for s in ("parallel", "serial"):
        n = r.randint(1, 3)
        c[s] = dict(traps=traps(), roe=roe(), ccd=ccd(n), nums=[r.randint(0, 9) for _ in range(7)], prune=r.uniform(0, 1))
    return c


def mk_roe(q):
    b = q["b"]
    kw = dict(dwell_times=q["dwell"], prescan_offset=q["prescan"], prescan_length=q["plen"], overscan_start=q["over"], read_noise=q["noise"], use_integer_express_matrix=b[3])
    if q["kind"] == 0: return ac.ROE(empty_traps_between_columns=b[0], empty_traps_for_first_transfers=b[1], force_release_away_from_readout=b[2], **kw)
    if q["kind"] == 1: return ac.ROEChargeInjection(empty_traps_between_columns=b[0], force_release_away_from_readout=b[2], **kw)
    return ac.ROETrapPumping(n_pumps=q["pumps"], empty_traps_for_first_transfers=b[1], **kw)


def mk_trap(t):
    p = t["p"]
    if t["kind"] == 0: return ac.TrapInstantCapture(density=p[0], release_timescale=p[1], fractional_volume_none_exposed=p[2], fractional_volume_full_exposed=p[3])
    if t["kind"] == 1: return ac.TrapSlowCapture(density=p[0], release_timescale=p[1], capture_timescale=p[2])
    if t["kind"] == 2: return ac.TrapInstantCaptureContinuum(density=p[0], release_timescale=p[1], release_timescale_sigma=p[2])
    return ac.TrapSlowCaptureContinuum(density=p[0], release_timescale=p[1], release_timescale_sigma=p[2], capture_timescale=p[3])


def run(c):
    image = np.array(c["image"]); keep = image.copy(); kw = {}; objs = {}
    for s in ("parallel", "serial"):
        q = c[s]; n = q["nums"]
        o = dict(roe=mk_roe(q["roe"]), ccd=ac.CCD([ac.CCDPhase(*p) for p in q["ccd"]["ph"]], q["ccd"]["fr"]), traps=None if q["traps"] is None else [mk_trap(t) for t in q["traps"]])
        objs[s] = o
        kw.update({s + "_" + k: v for k, v in o.items()})
        kw.update({s + "_express": n[0], s + "_window_offset": n[1], s + "_window_start": n[2], s + "_window_stop": n[3], s + "_time_start": n[4], s + "_time_stop": n[5], s + "_prune_n_electrons": q["prune"], s + "_prune_frequency": n[6]})
    neg = 1 if c["neg"] else 0
    a, b = c["model"]; model = lambda m: a * m + b
    def reaches(d, it):
        for s in ("parallel", "serial"):
            q = c[s]; n = q["nums"]; P = s + "_"
            for k, v in zip(("express", "window_offset", "window_start", "window_stop", "time_start", "time_stop", "prune_frequency"), n): check(d[P + k] == v, "%s%s reaches the core as %s not %s" % (P, k, d[P + k], v))
            check(same(d[P + "prune_n_electrons"], [q["prune"]]), P + "prune_n_electrons")
            ns = ["n_traps_ic", "n_traps_sc", "n_traps_ic_co", "n_traps_sc_co"]
            if q["traps"] is None:
                check(all(d[P + k] == 0 for k in ns), P + "traps appear from nowhere"); continue
            groups = [[t for t in q["traps"] if t["kind"] == k] for k in range(4)]
            for k, g in zip(ns, groups): check(d[P + k] == len(g), "%s%s is %s not %s" % (P, k, d[P + k], len(g)))
            flat = [t for g in groups for t in g]
            want = [[t["p"][0] for t in flat], [t["p"][1] for t in flat], [t["p"][2] for t in flat], [t["p"][3] if t["kind"] in (0, 3) else 0 for t in flat]]
            for k, w in zip(("trap_densities", "trap_release_timescales", "trap_third_params", "trap_fourth_params"), want): check(same(d[P + k], w), "%s%s is %s not %s" % (P, k, d[P + k], w))
            e = q["roe"]; kd = e["kind"]; bb = e["b"]
            check(same(d[P + "dwell_times"], e["dwell"]), P + "dwell_times")
            check(d[P + "prescan_offset"] == e["prescan"] and d[P + "overscan_start"] == e["over"], P + "prescan/overscan")
            check(bool(d[P + "use_integer_express_matrix"]) == bb[3], P + "use_integer_express_matrix")
            check(d[P + "roe_type"] == kd, P + "type")
            check(bool(d[P + "empty_traps_between_columns"]) == (True if kd == 2 else bb[0]), P + "empty_traps_between_columns")
            check(bool(d[P + "empty_traps_for_first_transfers"]) == (False if kd == 1 else bb[1]), P + "empty_traps_for_first_transfers")
            check(bool(d[P + "force_release_away_from_readout"]) == (False if kd == 2 else bb[2]), P + "force_release_away_from_readout")
            if kd == 2: check(d[P + "n_pumps"] == e["pumps"], P + "n_pumps")
            ph = q["ccd"]["ph"]
            for i, k in enumerate(("full_well_depths", "well_notch_depths", "well_fill_powers", "first_electron_fills")): check(same(d[P + k], [x[i] for x in ph]), P + k)
            check(same(d[P + "fraction_of_traps_per_phase"], q["ccd"]["fr"]), P + "fraction_of_traps_per_phase")
        check(d["allow_negative_pixels"] == neg, "allow_negative_pixels"); check(d["iteration"] == it, "iteration")
    models[:] = [model]; calls.clear()
    out = ac.add_cti(image, allow_negative_pixels=neg, verbosity=0, **kw)
    check(len(calls) == 1, "the core was called %d times" % len(calls)); reaches(calls[0], 0)
    check(same(calls[0]["image"], keep), "the image passed to the core"); check(same(image, keep), "add_cti changed its input"); check(same(out, model(keep)), "add_cti does not return the core's image")
    if c["bounce"]:
        bl = [ac.PixelBounce(*x) for x in c["bounce"]]; calls.clear(); k2 = {k: v for k, v in kw.items() if not k.endswith(("window_start", "window_stop"))}
        out = ac.add_cti(image, allow_negative_pixels=neg, verbosity=0, pixel_bounce_list=bl, **k2); w = ac.add_pixel_bounce(model(keep), bl, verbosity=0)
        check(np.allclose(out, w, rtol=1e-12, atol=1e-9), "pixel bounce differs from adding it after CTI")
        for x in bl: check(abs(x.omega0 - np.hypot(x.omega, x.gamma)) < 1e-12, "natural frequency")
    calls.clear(); got = ac.remove_cti(image, c["it"], allow_negative_pixels=neg, verbosity=0, **kw)
    est = keep.copy(); check(len(calls) == c["it"], "%d iterations call the core %d times" % (c["it"], len(calls)))
    for k in range(c["it"]):
        reaches(calls[k], k + 1)
        check(np.allclose(calls[k]["image"], est, rtol=1e-12, atol=1e-9), "iteration %d models the wrong image" % (k + 1)); est = calls[k]["image"] + keep - model(calls[k]["image"])
        if not neg and k == 0: est[est < 0] = 0
    check(np.allclose(got, est, rtol=1e-12, atol=1e-9), "iterative removal gives another image than adding back input minus model"); check(same(image, keep), "remove_cti changed its input")
    if c["parallel"]["roe"]["kind"] == 0:
        e = objs["parallel"]["roe"]; ci = ac.ROEChargeInjection.from_normal_roe(e, c["parallel"]["roe"]["pix"])
        check(ci.type == 1 and same(ci.dwell_times, e.dwell_times) and ci.prescan_offset == e.prescan_offset + c["parallel"]["roe"]["pix"] and ci.overscan_start == e.overscan_start and ci.empty_traps_between_columns == e.empty_traps_between_columns
              and ci.force_release_away_from_readout == e.force_release_away_from_readout and ci.use_integer_express_matrix == e.use_integer_express_matrix and ci.prescan_length == e.prescan_length and ci.read_noise == e.read_noise, "charge injection made from a standard sequence loses a setting")


def attempt(c):
    try:
        with contextlib.redirect_stdout(io.StringIO()): run(c)
        return None
    except Exception as e: return "%s: %s" % (type(e).__name__, e) if not isinstance(e, Fail) else str(e)


def main():
    mode = sys.argv[1]
    if sys.argv[2] == "--replay":
        c = json.loads([l for l in open(sys.argv[3]) if not l.startswith("#")][0]); w = attempt(c)
        print("FAILED " + w if w else "held"); sys.exit(1 if w else 0)
    r = random.Random(int(sys.argv[2])); budget = float(sys.argv[3]); t0 = time.time(); n = 0
    while time.time() - t0 < budget:
        c = draw(r); n += 1; w = attempt(c)
        if w:
            open(sys.argv[4], "w").write("# %s\n%s\n" % (w, json.dumps(c)))
            print("FAILED %s: %s\ncases %d" % (mode, w, n)); sys.exit(1)
        if n <= 2: print("sample %s: %d x %d image, %s traps, %d iterations" % (mode, len(c["image"]), len(c["image"][0]), [len(c[s]["traps"] or []) for s in ("parallel", "serial")], c["it"]))
    print("held cases %d" % n)


main()
