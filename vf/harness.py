"""Build and run the executable contracts in /verif/replay against /repo's sources."""
import os, subprocess, time, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
ALL = ["ccd", "roe", "traps", "trap_managers", "util", "cti"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=bool,enum", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


class Spec:
    """src: file under replay/; args: harness mode; kind: c++ or python"""
    def __init__(self, src, args=(), sources=ALL, budget=10, procs=8, flags=(), kind="c++", omp=False):
        self.src, self.args, self.sources, self.budget, self.procs = src, list(args), sources, budget, procs
        self.flags, self.kind, self.omp = list(flags), kind, omp


class Result:
    def __init__(self):
        self.cases, self.fail, self.why, self.text, self.samples, self.error = 0, False, "", "", [], None


class Harness:
    def __init__(self, spec, scratch, seed, pid):
        self.spec, self.scratch, self.seed, self.pid = spec, scratch, seed, pid
        self.bin = os.path.join(scratch, spec.src.split(".")[0])
        self.ok = False
        self.jobs = []

    def flags(self):
        return ["-std=c++11", "-O1", "-g1", "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "python/arcticpy/include"), "-I", os.path.join(HERE, "replay"),
                *(["-fopenmp"] if self.spec.omp else []), *SAN, *self.spec.flags]

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e["OMP_NUM_THREADS"] = "4"
        e["OMP_WAIT_POLICY"] = "passive"
        return e

    def build_start(self):
        if self.spec.kind == "python": return
        files = [os.path.join(HERE, "replay", self.spec.src)] + [os.path.join(REPO, "python/arcticpy/src" if s == "interface" else "src", s + ".cpp") for s in self.spec.sources]
        for i, f in enumerate(files):
            o = os.path.join(self.scratch, "%s_%d.o" % (os.path.basename(self.bin), i))
            self.jobs.append((o, subprocess.Popen(["g++", *self.flags(), "-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))

    def build_wait(self):
        if self.spec.kind == "python":
            self.ok = True
            return True, ""
        err = ""
        for o, j in self.jobs:
            out, _ = j.communicate()
            if j.returncode: err += out
        if not err:
            q = subprocess.run(["g++", *self.flags(), *[o for o, j in self.jobs], "-o", self.bin, "-lgsl", "-lgslcblas"],
                               capture_output=True, text=True)
            if q.returncode: err = q.stderr
        self.ok = not err
        return self.ok, err

    def base_cmd(self):
        if self.spec.kind == "python":
            return ["python3-vt", os.path.join(HERE, "replay", self.spec.src)] + self.spec.args
        return [self.bin] + self.spec.args

    def replay_cmd(self, path):
        return "%s --replay %s   (harness: replay/%s with /repo/src, flags %s)" % (" ".join(self.spec.args), path, self.spec.src, " ".join(SAN))

    def search(self, budget, salt=0):
        r = Result()
        ps = []
        for k in range(self.spec.procs):
            out = os.path.join(self.scratch, "%s_case_%d_%d" % (os.path.basename(self.bin), salt, k))
            ps.append((out, subprocess.Popen(self.base_cmd() + [str(self.seed * 1000 + salt * 100 + k), "%.1f" % budget, out],
                                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=self.env(),
                                             cwd=self.scratch, errors="replace")))
        for out, q in ps:
            try:
                text, _ = q.communicate(timeout=budget * 3 + 120)
            except subprocess.TimeoutExpired:
                q.kill(); text, _ = q.communicate()
                text += "\nFAILED the code under test did not finish\n"
            for l in text.splitlines():
                if "cases " in l:
                    try: r.cases += int(l.rsplit("cases ", 1)[1].split()[0])
                    except ValueError: pass
                if l.startswith("sample "): r.samples.append(l[7:400])
            if q.returncode == 0: continue
            why = next((l[7:] for l in text.splitlines() if l.startswith("FAILED ")), None)
            if why is None and os.path.exists(out):      # crashed inside a case
                why = next((l.strip() for l in text.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l
                            or "Assertion" in l or "terminate called" in l), "the code under test ended the process (status %s)" % q.returncode)
            if why is None:
                r.error = text[-1500:] or "status %s" % q.returncode
                continue
            if not r.fail:
                r.fail, r.why = True, why
                r.text = open(out, errors="replace").read() if os.path.exists(out) else ""
        return r
