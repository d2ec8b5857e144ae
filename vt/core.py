"""Common machinery of the checks: scratch space, TLC runs, evidence, verdicts.

A check module (checks/pXX.py) defines run(ctx). It records what it explored with
ctx.states / ctx.trans / ctx.traces / ctx.sample(), and reports a rejection with
ctx.violation(text, detail). Only main() here decides the exit status:
   0  the property held on everything explored
   1  VIOLATION line printed
   2  the check itself failed (tool error, build of the harness failed, ...)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMINT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not be carried out (not a verdict on the code)."""


class BuildBroken(CheckError):
    """The code under test does not build."""


def sh(cmd, cwd=None, env=None, timeout=800, check=True, input=None, what=None):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C"})
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, input=input, shell=isinstance(cmd, str), text=True, errors="replace")
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, what or cmd, p.stdout[-4000:]))
    return p


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        ms = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        m2 = re.search(r"The number of states generated: (\d+)", out)
        if ms:
            self.generated, self.distinct = [int(x.replace(",", "")) for x in ms[-1]]
        elif m2:
            self.generated = self.distinct = int(m2.group(1))
        else:
            self.generated = self.distinct = 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else None
        self.ok = rc == 0 and ("No error has been found" in out or "Finished in" in out) \
            and "Error:" not in out
        # a property of the model was violated (as opposed to: TLC could not evaluate it)
        self.violated = bool(re.search(
            r"Invariant \S+ is violated|Action property \S+ .*violated|Temporal properties were violated|"
            r"[Pp]ostcondition .*(violated|false)|is violated by the initial state|Assumption .* is false|"
            r"The first argument of Assert evaluated to FALSE", out))

    def prints(self, tag):
        """JSON payloads of lines printed as  PrintT("<tag> " \\o ToJson(..))."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag + " "):
                body = line[len(tag) + 2:-1].replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(body))
        return res


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="simv-%s-" % prop)
        self.states = self.trans = self.traces = self.rejected = 0
        self.samples = []
        self.info = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.level = "model_checking"
        self._n = 0
        self.known = self._load_known()

    # -- scratch ---------------------------------------------------------
    def dir(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch, name or "d%d" % self._n)
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, simulate=None, depth=None, extra=(), heap="2g",
            timeout=700, count=True, seed=None):
        """Runs TLC on spec/<module>.tla with the configuration text cfg."""
        self._n += 1
        d = self.dir("tlc%d-%s" % (self._n, module))
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % workers]
        cmd = ["java", "-Xmx" + heap, "-Xss16m"] + gc + ["-XX:TieredStopAtLevel=4", "-cp", TLA_CP, "tlc2.TLC",
               "-config", module + ".cfg", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-workers", str(workers)]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(self.seed if seed is None else seed)]
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = sh(cmd, cwd=d, env=env, timeout=timeout, check=False)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        r = TlcResult(p.stdout, p.returncode, time.time() - t)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        if count:
            self.states += r.distinct
            self.trans += r.generated
        r.module, r.dir = module, d
        with open(os.path.join(d, "tlc.out"), "w") as f:
            f.write(p.stdout)
        return r

    def model_check(self, module, cfg, **kw):
        """An exhaustive (or simulated) run of the design model, which must be free of errors."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("model %s has an error:\n%s" % (module, r.out[-3000:]))
        return r

    def validate(self, module, trace, cfg=None, what="", env=None, **kw):
        """Checks one recorded trace (list of records) against a trace specification.

        Returns (accepted, matched, result): matched = number of accepted records."""
        self._n += 1
        path = os.path.join(self.scratch, "trace%d.ndjson" % self._n)
        with open(path, "w") as f:
            for r in trace:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return self.validate_file(module, path, len(trace), cfg=cfg, env=env, **kw)

    def validate_file(self, module, path, n, cfg=None, env=None, **kw):
        cfg = cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
        e = {"TRACE": path}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, **kw)
        if r.ok:
            return True, n, r
        # Is this a rejection, or did TLC fail?
        if "TraceAccepted" in r.out and ("ostcondition" in r.out or "is violated" in r.out):
            matched = (r.depth - 1) if r.depth else 0
            return False, matched, r
        if r.violated:
            m = re.findall(r"^State (\d+):", r.out, re.M)
            return False, (int(m[-1]) - 1 if m else 0), r
        raise CheckError("TLC failed on trace of %s:\n%s" % (module, r.out[-3000:]))

    def parallel(self, fn, items, n=NCPU):
        items = list(items)
        with ThreadPoolExecutor(max_workers=n) as ex:
            return list(ex.map(fn, items))

    # -- verdicts --------------------------------------------------------
    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def _load_known(self):
        path = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path)).get("findings", []) if k["property"] == self.prop]

    def violation(self, text, detail=None, key=None):
        """Reports a violation. key identifies the failing input/call site for known findings."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k["key"] not in self.known_hits:
                    self.known_hits.append(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        self.violations.append({"text": text, "detail": detail, "key": key})

    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"]}
        cov.update(self.info)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "violations": self.violations[:50]}, f, indent=1, default=str)
            for v in self.violations[:10]:
                print("  -", v["text"][:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.prop, self.states, self.trans, self.traces, wall), flush=True)
        return 0

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


def check_specs():
    """Parses every specification module."""
    d = tempfile.mkdtemp(prefix="simv-setup-")
    try:
        mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
        for f in mods:
            shutil.copy(os.path.join(SPEC, f), d)
        for f in mods:
            p = sh(["java", "-cp", TLA_CP, "tla2sany.SANY", f], cwd=d, check=False)
            if p.returncode != 0 or "*** Errors" in p.stdout:
                print(p.stdout[-2000:])
                sys.exit(1)
        print("parsed %d specification modules" % len(mods))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    import importlib
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s\n%s" % (prop, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    return rc
