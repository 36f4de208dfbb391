"""Shared machinery: building /repo's current tree, running the driver on it,
running TLC on what it answered, and reporting."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(3000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TIER = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
SCRATCH = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


class Tool(Exception):
    """The machinery itself failed: no verdict."""


# ------------------------------------------------------------------ building
def sources(main=False):
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".c") and (main or os.path.relpath(p, REPO) != "src/client/main.c"):
                res.append(p)
    return sorted(res)


def includes():
    res = []
    for d, _, _ in os.walk(os.path.join(REPO, "src")):
        res.append("-I" + d)
    return res


def cc(args):
    p = subprocess.run(args, capture_output=True, text=True)
    if p.returncode != 0:
        raise Tool("compilation failed: %s\n%s" % (" ".join(args), p.stderr[-3000:]))


def build(kind, install="/nonexistent/ccalc"):
    """kind: driver (instrumented library + driver) or ccalc (the program)."""
    out = os.path.join(SCRATCH, kind)
    os.makedirs(out, exist_ok=True)
    flags = ["-std=gnu99", "-O1", "-g", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
             '-DINSTALL_PATH="%s"' % install] + includes()
    objs, jobs = [], []
    for i, s in enumerate(sources(main=(kind == "ccalc"))):
        o = os.path.join(out, "%d.o" % i)
        objs.append(o)
        jobs.append(["gcc"] + flags + ["-c", s, "-o", o])
    if kind == "driver":
        o = os.path.join(out, "driver.o")
        objs.append(o)
        jobs.append(["gcc"] + flags + ["-c", os.path.join(VERIF, "harness", "driver.c"), "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(cc, jobs))
    exe = os.path.join(out, kind)
    cc(["gcc", "-fsanitize=address"] + objs + ["-o", exe, "-lm"])
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:log_path=/dev/null:detect_stack_use_after_return=0",
           LC_ALL="C", TZ="UTC")

_driver = None


def driver():
    global _driver
    if _driver is None:
        _driver = build("driver")
    return _driver


# ------------------------------------------------------------ talking to it
def esc(s):
    return "".join(c if 33 <= ord(c) < 127 and c != "%" else "%%%02x" % (ord(c) & 255) for c in s)


def req(*fields):
    return "\t".join(esc(str(f)) for f in fields)


def ask(requests, jobs=8, setup=(), files=None):
    """requests: list of field tuples.  Returns the answers in order.
    files: name -> content, put into the directory the code runs in."""
    exe = driver()
    n = len(requests)
    if n == 0:
        return []
    jobs = max(1, min(jobs, n // 50 + 1)) if n > 8 else n
    chunks = [list(range(k, n, jobs)) for k in range(jobs)]
    d = tempfile.mkdtemp(dir=SCRATCH)
    for name, text in (files or {}).items():
        open(os.path.join(d, name), "w", encoding="latin-1").write(text)

    def one(k):
        fin, fout = os.path.join(d, "in%d" % k), os.path.join(d, "out%d" % k)
        with open(fin, "w") as f:
            for s in setup:
                f.write(req(*s) + "\n")
            for i in chunks[k]:
                f.write(req(*requests[i]) + "\n")
        p = subprocess.run([exe, fin, fout], env=ENV, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d)
        if p.returncode != 0:
            raise Tool("driver failed (%d) %s" % (p.returncode, p.stderr[-500:]))
        res = {}
        for line in open(fout, encoding="latin-1"):
            line = line.strip()
            if not line:
                continue
            try:
                r = json.loads(line)
            except ValueError:
                continue          # cut off by the end of the child
            res[r["i"]] = r
        return res

    ans = [None] * n
    with ThreadPoolExecutor(jobs) as ex:
        for k, res in enumerate(ex.map(one, range(jobs))):
            for j, i in enumerate(chunks[k]):
                r = res.get(j + len(setup))
                if r is None:
                    raise Tool("no answer to request %r" % (requests[i],))
                r["i"] = i
                ans[i] = r
    shutil.rmtree(d, ignore_errors=True)
    return ans


# --------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0


def tlc(module, cfg, env=None, workers=8, heap="6g", timeout=800, extra=(), stack="64m"):
    d = tempfile.mkdtemp(dir=SCRATCH)
    cfgf = os.path.join(d, module + ".cfg")
    open(cfgf, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet"
           ][:4] + ["-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
           "-config", cfgf, "-workers", str(workers), "-noGenerateSpecTE", "-deadlock"] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise Tool("TLC took longer than %d s on %s" % (timeout, module))
    shutil.rmtree(d, ignore_errors=True)
    return TlcResult(p.stdout + p.stderr, p.returncode)


def gist(out):
    return "\n".join(l for l in out.splitlines() if l and not re.match(r"\d+\. Line|Parsing file|Semantic proc|TLC2 Ver|Starting|Running|Linting", l))[:3000]


def model(module, cfg, **kw):
    """Model-check a design model: any violation there is a fault of the
    specification, hence of the machinery."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0:
        raise Tool("TLC rejects the model %s:\n%s" % (module, gist(r.out)))
    return r


TRACE_CFG = "INIT Init\nNEXT Next\nINVARIANT Judge\n"


def validate(module, recs, env=None, heap="8g", timeout=800):
    """Check recorded behaviours against the specification.  Returns
    ({index: verdict text}, TlcResult)."""
    if not recs:
        return {}, TlcResult("", 0)

    def run(rs):
        f = os.path.join(SCRATCH, "trace-%d.ndjson" % random.getrandbits(40))
        with open(f, "w") as h:
            for r in rs:
                h.write(json.dumps(r) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        res = tlc(module, TRACE_CFG, env=e, heap=heap, timeout=timeout)
        os.unlink(f)
        return res

    bad, total = {}, None
    todo = list(range(len(recs)))
    for _ in range(12):
        r = run([recs[i] for i in todo])
        if total is None:
            total = r
        else:
            total.generated += r.generated
            total.distinct += r.distinct
        for m in re.finditer(r'^"?BAD (\d+) (.*?)"?$', r.out, re.M):
            bad[todo[int(m.group(1)) - 1]] = m.group(2)
        if r.rc == 0:
            return bad, total
        # the specification could not be evaluated on some record
        m = re.findall(r"^(?:/\\ )?pos = (\d+)", r.out, re.M)
        if not m:
            raise Tool("TLC failed on %s:\n%s" % (module, gist(r.out)))
        k = int(m[-1]) - 1
        single = run([recs[todo[k]]])
        if single.rc == 0:
            raise Tool("TLC failed on %s:\n%s" % (module, gist(r.out)))
        err = [l for l in single.out.splitlines() if l.strip()]
        why = [l for l in err if "rror" in l or "ttempted" in l]
        bad[todo[k]] = "outside of the specification: " + " / ".join(why[:3])
        todo = [i for i in todo if i != todo[k] and i not in bad]
        if not todo:
            break
    return bad, total


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.viol = []        # (signature, description, replay dict)
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))

    def count(self, r):
        self.states += r.distinct
        self.transitions += max(0, r.generated - 0)

    def design(self, module, cfg, **kw):
        r = model(module, cfg, **kw)
        self.count(r)
        self.notes.setdefault("design_models", []).append({"module": module, "distinct_states": r.distinct,
                                                          "generated": r.generated})
        return r

    def count_run(self, module, cfg, **kw):
        r = model(module, cfg, **kw)
        self.count(r)
        return r

    def fail(self, what, replay):
        self.viol.append((what, replay))

    def conform(self, module, requests, answers, rec, env=None, setup=(), what="", heap="8g", retry=True, files=None):
        """answers of the real code are turned into records by rec(request,
        answer) and validated by module; failing ones are re-run once."""
        recs, idx, crashed = [], [], []
        for q, a in zip(requests, answers):
            if "crash" in a:
                if a["crash"] != "skipped":
                    crashed.append(q)
                continue
            r = rec(q, a)
            if r is None:
                continue
            recs.append(r)
            idx.append(q)
        self.confirm_crashes(crashed, setup, files)
        bad, r = validate(module, recs, env=env, heap=heap)
        if r:
            self.count(r)
        self.traces += len(recs)
        name = module + ((" " + what) if what else "")
        self.notes.setdefault("conformance", []).append({"module": name, "records": len(recs), "rejected": len(bad)})
        for k in self.spread(len(recs), 2):
            self.samples.append({"request": list(map(str, idx[k]))[:12], "recorded": shorten(recs[k])})
        if bad and retry:
            ks = sorted(bad)[:40]
            again = ask([idx[k] for k in ks], setup=setup, files=files)
            rr = [(k, rec(idx[k], a)) for k, a in zip(ks, again) if "crash" not in a]
            bad2, _ = validate(module, [x for _, x in rr], env=env, heap=heap)
            bad = {rr[j][0]: v for j, v in bad2.items()}
        for k in sorted(bad):
            self.fail("%s: %s" % (name, bad[k]),
                      {"request": list(idx[k]), "setup": [list(s) for s in setup], "recorded": recs[k], "verdict": bad[k],
                       "module": module})
        return bad

    def confirm_crashes(self, qs, setup=(), files=None):
        qs = qs[:8]
        for q, b in zip(qs, ask(qs, setup=setup, files=files, jobs=len(qs))):
            if "crash" in b:
                self.fail("the code ended with %s" % b["crash"],
                          {"request": list(q), "setup": [list(s) for s in setup], "crash": b["crash"]})

    def spread(self, n, k):
        return sorted({min(n - 1, int(n * (j + 0.5) / k)) for j in range(k)}) if n else []

    def known_findings(self):
        f = os.path.join(VERIF, "KNOWN_FINDINGS.json")
        try:
            return [x for x in json.load(open(f))["findings"] if x["property"] == self.prop]
        except FileNotFoundError:
            return []

    def finish(self):
        new = []
        for k in self.known_findings():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        keys = [k["match"] for k in self.known_findings()]
        for what, replay in self.viol:
            text = json.dumps(replay.get("request", replay))
            if any(k == text for k in keys):
                continue
            new.append((what, replay))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:12] or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if not new:
            print("OK property=%s states=%d records=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - T0))
            return 0
        os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "build", "replay", self.prop + ".json")
        json.dump([{"what": w, **r} for w, r in new[:50]], open(path, "w"), indent=1)
        for w, r in new[:5]:
            print("  %s\n    %s" % (w, json.dumps(r.get("request", r))[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def shorten(x, n=600):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main(prop, fn):
    try:
        c = Check(prop)
        fn(c)
        rc = c.finish()
    except Tool as e:
        print("TOOL-ERROR property=%s %s" % (prop, e))
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
