"""P13: all vector instruction sets give the same results."""
import json, os, random
from vt import core, build
from vt.build import run_harness
from vt.core import sh
from vt.trace import validate_events

ARM = [("asimd (emulated)", ["-DSIMINT_ASIMD"])] + \
      [("sve%d (emulated)" % n, ["-DSIMINT_SVE", "-D__ARM_FEATURE_SVE_BITS=%d" % n]) for n in (128, 256, 512)]


def lanes(ctx, isas, rnd, cnt):
    """One recorder per instruction set and compiler: [(name, exe)]."""
    inc = ctx.dir()
    os.makedirs(os.path.join(inc, "simint", "vectorization"))
    open(os.path.join(inc, "simint", "vectorization", "vector_config.h"), "w").write("#pragma once\n")
    jobs = []
    for isa in isas:
        for cc in ("gcc", "clang"):
            for o in ("-O0", "-O2"):
                jobs.append(("%s %s %s" % (isa, cc, o), [cc, o] + build.ISA_FLAGS[isa]))
    if "avx2" in isas:
        jobs.append(("sse with fma", ["gcc", "-O2", "-DSIMINT_SSE", "-DSIMINT_FMA", "-mssse3", "-mfma"]))
    for name, fl in ARM:
        jobs.append((name, ["gcc", "-O1", "-Wno-psabi", "-I" + os.path.join(core.HARNESS, "arm")] + fl))

    def mk(j):
        name, fl = j
        exe = os.path.join(ctx.dir(), "lanes")
        p = sh([fl[0], "-std=gnu11", "-w"] + fl[1:] + ["-I" + inc, "-I" + os.path.join(core.REPO, "skel"),
               os.path.join(core.HARNESS, "lanes.c"), "-lmvec", "-lm", "-o", exe], check=False)
        if p.returncode:
            # an operation the emulation lacks, or helpers with another signature: only the libraries are compared
            ctx.log("recorder for %s does not compile: %s" % (name, p.stdout[-300:]))
            return name, None
        return name, exe
    return ctx.parallel(mk, jobs)


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    isas = build.cpu_isas()
    b = build.Builder(ctx)
    # the accumulations, one addition at a time and in any order
    for w, nc, nb in ((2, 3, 2), (4, 2, 2), (3, 3, 2)) + (((4, 3, 3),) if deep else ()):
        ctx.model_check("LanesAlgo", "SPECIFICATION Spec\nCONSTANTS W=%d NC=%d NB=%d\nINVARIANT Confluent\n" % (w, nc, nb))
    exes = lanes(ctx, isas, rnd, 1)
    skipped = [n for n, e in exes if e is None]
    ctx.info["lane_builds_skipped"] = skipped
    evs, where = [], []
    cnt = 60 if deep else 6

    def rec(x):
        name, exe = x
        return name, run_harness(exe, [rnd.randrange(10 ** 9), cnt])
    for name, (rc, out, err) in ctx.parallel(rec, [(n, e) for n, e in exes if e]):
        got = []
        for line in out.splitlines():
            try:
                got.append(json.loads(line))
            except ValueError:
                break
        if rc != 0:
            ctx.violation("lane operations of %s: the recorder ended with status %d after %s %s" % (
                name, rc, json.dumps(got[-1])[:200] if got else "nothing", err[-200:]))
        evs += got
        where += [name] * len(got)
    nlane = len(evs)
    ctx.info["lane_builds"] = [n for n, e in exes if e]
    if len(evs) > 3:
        ctx.sample({"lane event": evs[3], "of": where[3]})

    def describe(e, w):
        if e["ev"] == "same":
            return "%s: class %s order %d, %d x %d pairs differs from the scalar build: residual %s (1e-12 of the largest value), result count %d (scalar %d)" % (
                w, e["am"], e["der"], e["np"], e["nq"], "not finite or outside its buffers" if e["res"] < 0 else e["res"], e["n"], e["n0"])
        what = {"con": "contract%s%s" % ("_all" if e.get("all") else "", "_fac" if e.get("scaled") else "")}.get(e["ev"], e.get("op", e["ev"]))
        return "%s: %s is not the lane operation it should be: %s" % (w, what, json.dumps(e)[:300])
    # whole libraries from one source
    worst = {}
    trees = [("-l 1 -p 1 -d 1", 1, 16 * 2 * 6), ("-l 2 -p 2 -ve 2 -he 2 -vg 3 -hg 3 -d 0", 2, 81 * 2)]
    if deep:
        trees = [("-l 2 -p 2 -d 1", 2, 81 * 2 * 4), ("-l 3 -p 3 -ve 2 -he 2 -vg 4 -hg 4 -d 0", 3, 256 * 2)]
    ncall = 0
    for opts, maxl, calls in trees:
        b.tree(opts)
        libs = ctx.parallel(lambda i: (i, b.lib(opts, i, jobs=3)), isas, 3)
        exe = [(i, b.compile("isa.c", lib=lb, link=["-lmvec", "-lm"])) for i, lb in libs]
        ref = os.path.join(ctx.dir(), "ref")
        seed = rnd.randrange(10 ** 9)
        assert exe[0][0] == "scalar"
        rc, out, err = run_harness(exe[0][1], [seed, maxl, calls, "write", ref], timeout=800)
        if rc:
            ctx.violation("%s scalar: status %d %s" % (opts, rc, err[-200:]))
            continue
        for i, (rc, out, err) in ctx.parallel(lambda x: (x[0], run_harness(x[1], [seed, maxl, calls, "compare", ref], timeout=800)), exe[1:]):
            got = [json.loads(x) for x in out.splitlines() if x.endswith("}")]
            if rc:
                ctx.violation("%s %s: status %d after call %d %s" % (opts, i, rc, len(got), err[-200:]))
            evs += got
            ncall += len(got)
            where += ["%s %s" % (i, opts)] * len(got)
            worst[i] = max([worst.get(i, 0)] + [e["res"] for e in got])
    validate_events(ctx, "LanesTrace", evs, where, describe=describe)
    ctx.info.update(lane_events=nlane, library_calls=ncall, worst_residual_1e12=worst)
    ctx.log("worst residuals (1e-12): %s" % worst)
    ctx.assumptions += ["lane operations on exact small integers; exp and pow within 16 ulps of the C library in extended precision",
                        "ARM instruction sets through an emulation of the intrinsics they use"]
