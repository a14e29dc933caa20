"""Build and run machinery shared by all checks."""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DRV = os.path.join(VERIF, "drivers")
JOBS = int(os.environ.get("SPBAI_JOBS", 0)) or os.cpu_count() or 4


class CheckError(Exception):
    """the analysis itself failed: neither a pass nor a violation"""


class Violation:
    def __init__(self, rule, site, msg, detail=""):
        self.rule, self.site, self.msg, self.detail = rule, site, msg, detail

    def key(self):
        return "%s | %s | %s" % (self.rule, self.site, self.msg)


def sh(cmd, cwd=None, timeout=600, env=None, input=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace", env=env, input=input)
    return r


def pmap(fn, items):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


def llvm_flags(what):
    return sh(["llvm-config-18"] + what).stdout.split()


def build_engine():
    """the abstract interpreter; rebuilt when its sources are newer"""
    out = os.path.join(VERIF, "build", "spbai")
    src = sorted(glob.glob(os.path.join(VERIF, "engine", "*")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = out + ".sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++-18", "-O2"] + llvm_flags(["--cxxflags"]) + ["-std=c++17", "-fexceptions", "-Wno-deprecated-declarations", os.path.join(VERIF, "engine", "ai.cpp"), "-o", tmp]
    cmd += llvm_flags(["--ldflags", "--libs", "core", "irreader", "passes", "support", "demangle", "--system-libs", "--link-shared"])
    r = sh(cmd)
    if r.returncode:
        raise CheckError("the analyser does not build:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    open(stamp, "w").write(h)
    return out


class Work:
    """scratch directory of one run"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="spbv.%s." % prop)
        self.viol = []
        self.errors = []
        self.lock = threading.Lock()
        self.cov = {}
        self.fns = set()
        self.entries = []
        self.assumptions = []

    def close(self):
        if os.environ.get("SPB_KEEP"):
            print("kept", self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- the schema compiler of the tree under analysis
    def sprotoc(self):
        with self.lock:
            return self._sprotoc()

    def _sprotoc(self):
        exe = os.path.join(self.dir, "sprotoc")
        if os.path.exists(exe):
            return exe
        base = os.path.join(REPO, "src", "spb-proto-compiler")
        src = [os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs if f.endswith(".cpp")]
        if not src:
            raise CheckError("no sources of the schema compiler")
        od = os.path.join(self.dir, "obj")
        os.makedirs(od, exist_ok=True)

        def cc(s):
            o = os.path.join(od, os.path.relpath(s, base).replace("/", "_") + ".o")
            return o, s, sh(["g++", "-std=c++20", "-O0", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + base, "-c", s, "-o", o])

        objs = []
        for o, s, r in pmap(cc, src):
            if r.returncode:
                raise CheckError("%s does not compile:\n%s" % (s, r.stderr[-2000:]))
            objs.append(o)
        r = sh(["g++"] + objs + ["-o", exe])
        if r.returncode:
            raise CheckError("the schema compiler does not link:\n" + r.stderr[-2000:])
        return exe

    def generate(self, name, text, sub="gen", flags=()):
        """runs the schema compiler on the text; returns (directory, returncode, stderr)"""
        exe = self.sprotoc()
        d = os.path.join(self.dir, sub)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name + ".proto")
        with open(p, "w") as f:
            f.write(text)
        try:
            r = sh([exe, "--cpp_out=" + d, "-I" + d] + list(flags) + [p], cwd=d, timeout=60)
        except subprocess.TimeoutExpired:
            return d, 124, "the schema compiler does not end"
        return d, r.returncode, r.stderr + r.stdout

    def gen_file(self, f):
        d, rc, err = self.generate(f.name, f.proto())
        if rc != 0:
            self.viol.append(Violation("the schema compiler accepts a valid schema", f.name + ".proto", "exit status %d: %s" % (rc, err.strip()[-400:])))
            return None
        return d

    def bitcode(self, name, text, std="c++20"):
        """compiles a driver to LLVM IR (unoptimised, assertions kept)"""
        p = os.path.join(self.dir, name + ".cpp")
        with open(p, "w") as f:
            f.write(text)
        bc = os.path.join(self.dir, name + ".bc")
        r = sh(["clang++-18", "-std=" + std, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                "-Wno-everything", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(self.dir, "gen"), "-I" + DRV, "-I" + self.dir, p, "-o", bc])
        return bc, r.returncode, r.stderr

    def analyse(self, bc, jobs=1, entries=(), cpu=400, extra=()):
        out = bc + ".json"
        exe = build_engine()
        sh([exe, bc, "--out", out, "--jobs", str(jobs), "--cpu", str(cpu), "--deadline", str(int(self.t0 + 800))] + list(extra) + list(entries), timeout=3000)
        if not os.path.exists(out):
            raise CheckError("the analyser produced nothing for " + bc)
        return [json.loads(l, strict=False) for l in open(out, errors="replace")]

    def add_results(self, unit, res, rule, need=()):
        """collects analysis results; an entry with an error and no violation is an error of the check"""
        for j in res:
            self.entries.append({"unit": unit, "entry": j["entry"], "partitions": j["partitions"], "steps": j["steps"],
                                 "obligations": sum(j["asserts"].values()), "cpu_s": round(j["cpu_s"], 2), "covers": j["covers"]})
            self.fns.update(j["functions"])
            for v in j["violations"]:
                det = "entry %s of %s\n%s\n  position:\n%s  partition:\n%s  decisions:\n%s" % (j["entry"], unit, v["msg"], v["where"], v["facts"], v["trace"])
                self.viol.append(Violation(rule, v["site"] or (unit + ":" + j["entry"]), j["entry"] + ": " + v["msg"], det))
            if j["error"] and not j["violations"]:
                self.errors.append("%s/%s: %s" % (unit, j["entry"], j["error"]))
                continue
            for n in need:
                if not j["violations"] and not j["covers"].get(n):
                    self.errors.append("%s/%s: the analysis does not reach '%s' (vacuous)" % (unit, j["entry"], n))

    def drivers(self, units, rule, need=("done",), cpu=400):
        """units: list of (name, source text). compiles and analyses all of them"""
        comp = pmap(lambda u: (u[0],) + self.bitcode(u[0], u[1]), units)
        for n, bc, rc, err in comp:
            if rc:
                self.errors.append("driver %s does not compile against the tree:\n%s" % (n, err[-3000:]))
        jobs = max(1, JOBS // max(1, min(len(comp), JOBS)))
        build_engine()
        comp = [c for c in comp if not c[2]]
        for (n, bc, rc, err), res in zip(comp, pmap(lambda c: self.analyse(c[1], jobs, cpu=cpu), comp)):
            if not res:
                self.errors.append("no entries in " + n)
            self.add_results(n, res, rule, need)

    # ---- results
    def finish(self, level="other", explanation=None, samples=None, extra=None):
        import props
        pr = props.P.get(self.prop)
        if explanation is None:
            explanation = pr["expl"] if pr else ""
        if pr:
            self.assumptions = self.assumptions + pr["assume"]
        known = load_known()
        out = 0
        shown, printed = set(), set()
        ev_viol = []
        for v in self.viol:
            if v.key() in shown:
                continue
            shown.add(v.key())
            hit = None
            for k in known:
                if k["property"] == self.prop and k["match"] in v.key():
                    hit = k
            if hit:
                if hit["what"] not in printed:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, hit["what"]))
                printed.add(hit["what"])
                ev_viol.append({"known": True, "what": v.key()})
                continue
            out = 1
            ev_viol.append({"known": False, "what": v.key()})
        if not out and self.errors:
            raise CheckError("; ".join(self.errors[:5]))
        rd = os.path.join(VERIF, "evidence", "replay")
        if out:
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".txt")
            with open(rp, "w") as f:
                for v in self.viol:
                    f.write("RULE  %s\nSITE  %s\nWHAT  %s\n%s\n\n" % (v.rule, v.site, v.msg, v.detail))
            for v in self.viol[:5]:
                print("  %s\n    at %s\n    %s" % (v.rule, v.site, v.msg))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        cov = dict(self.cov)
        if self.entries:
            cov["entries_analysed"] = len(self.entries)
            cov["partitions"] = sum(e["partitions"] for e in self.entries)
            cov["abstract_steps"] = sum(e["steps"] for e in self.entries)
            cov["obligations_checked"] = sum(e["obligations"] for e in self.entries)
            cov["functions_analysed"] = len(self.fns)
            cov["functions"] = sorted(self.fns)[:400]
            cov["entries"] = [{k: e[k] for k in ("unit", "entry", "partitions", "obligations", "cpu_s")} for e in self.entries]
        cov["explanation"] = explanation
        if samples:
            cov["samples"] = samples
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": sum(1 for v in ev_viol if not v["known"])}
        if ev_viol:
            cov["alarms"] = ev_viol
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return out


def load_known():
    """known_findings.txt: 'known: property=<id> match=<text>|| <what fails>' ('fixed:' lines suppress nothing)"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("known: property="):
            head, what = l[len("known: property="):].split("||", 1)
            pid, match = head.split(" match=", 1)
            r.append({"property": pid.strip(), "match": match.strip(), "what": what.strip()})
    return r
