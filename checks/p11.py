"""P11: accuracy of the Boys functions and of the integrals for all arguments."""
import json, os, random
from vt import core, build
from vt.build import run_harness
from vt.core import sh
from vt.trace import validate_events
from checks import gfcommon


def patterns(ctx, mode, w=1, kinds=(0,), orders=(0,)):
    r = ctx.tlc("NumericGen", "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\" W = %d Kinds = {%s} Orders = {%s}\nINVARIANT Emit\n"
                % (mode, w, ",".join(map(str, kinds)), ",".join(map(str, orders))), heap="3g")
    if not r.ok:
        raise core.CheckError("NumericGen: " + r.out[-2000:])
    return r.prints("CASE")


def feed(ctx, exe, lines, label, timeout=700):
    """Runs the lines on all cores; the events in order of the lines, None where a run died."""
    k = core.NCPU
    ev = [None] * len(lines)
    for j, (rc, out, err) in enumerate(ctx.parallel(
            lambda j: run_harness(exe, input="\n".join(lines[j::k]) + "\n", timeout=timeout), range(k))):
        got = out.splitlines()
        for i, o in enumerate(got):
            try:
                ev[j + i * k] = json.loads(o)
            except (ValueError, IndexError):
                break
        if rc != 0:
            bad = lines[j::k][len(got)] if len(got) < len(lines[j::k]) else "?"
            ctx.violation("%s: the run died (status %d) on %s" % (label, rc, bad))
    return ev


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    isas = build.cpu_isas()
    seed = lambda: rnd.randrange(10 ** 9)
    # which method is used for which lane: every combination of lanes
    for w, n in ((1, 6), (2, 6), (4, 5)) + (((8, 5),) if deep else ()):
        ctx.model_check("BoysAlgo", "SPECIFICATION Spec\nCONSTANTS W=%d N=%d Small=4\nINVARIANT AllValid\n" % (w, n))
    evs, where = [], []

    # ---- the reference: its code, run over GF(p), gives what the specification defines
    exe = build.gf_build(b, "-l 2 -p 2 -d 1", ["gf_eri.cpp"], classes=[(0, 0, 0, 0)])["gf_eri.cpp"]
    lines = []
    for _ in range(160 if deep else 48):
        l = [rnd.randrange(3) for _ in range(4)]
        der = rnd.randrange(2)
        if gfcommon.ncomp(l, der) > 1500:
            der = 0
        lines.append("%d %d %d %d %d %d %d" % ((der,) + tuple(l) + (rnd.randrange(4), seed())))
    rc, out, err = run_harness(exe, ["oracle"], input="\n".join(lines) + "\n", timeout=600)
    oev = [json.loads(x) for x in out.splitlines()]
    if rc or len(oev) != len(lines):
        raise core.CheckError("oracle run: %d %s" % (rc, err[-500:]))
    nv = len(ctx.violations)
    gfcommon.validate(ctx, oev, [("oracle", x) for x in lines])
    if len(ctx.violations) > nv:
        raise core.CheckError("the reference integrals do not satisfy Eri.tla")
    ctx.log("reference bound to Eri.tla: %d calls" % len(oev))

    # ---- Boys functions
    inc = ctx.dir()
    os.makedirs(os.path.join(inc, "simint", "vectorization"))
    open(os.path.join(inc, "simint", "vectorization", "vector_config.h"), "w").write("#pragma once\n")
    bd = os.path.join(core.REPO, "skel", "simint", "boys")
    grid = [os.path.join(bd, f) for f in sorted(os.listdir(bd)) if f.endswith(".c")]
    jobs = [(i, cc) for i in isas for cc in (("gcc", "clang") if deep or i in ("scalar", isas[-1]) else ("gcc",))]

    quadinc = os.path.dirname(sh(["gcc", "-print-file-name=include/quadmath.h"]).stdout.strip()) or "."

    def mk(j):
        isa, cc = j
        exe = os.path.join(ctx.dir(), "boysx")
        p = sh([cc, "-O2", "-w", "-std=gnu11"] + build.ISA_FLAGS[isa] + ["-I" + inc, "-I" + os.path.join(core.REPO, "skel"), "-I" + core.HARNESS, "-idirafter", quadinc,
               os.path.join(core.HARNESS, "boysx.c")] + grid + ["-o", exe, "-lmvec", "-lquadmath", "-lm"], check=False)
        if p.returncode:
            ctx.log("boys recorder for %s %s does not compile: %s" % (isa, cc, p.stdout[-400:]))
            return None
        return exe
    exes = [(i, cc, e) for (i, cc), e in zip(jobs, ctx.parallel(mk, jobs)) if e]
    ctx.info["boys_builds"] = ["%s %s" % (i, cc) for i, cc, _ in exes]
    pats = {}
    for w in sorted({build.ISA_LEN[i] for i, _, _ in exes}):
        if w == 1: pats[w] = patterns(ctx, "boys", 1, range(10), range(30))
        elif w == 2: pats[w] = patterns(ctx, "boys", 2, range(10), range(30))
        elif w == 4: pats[w] = patterns(ctx, "boys", 4, (0, 3, 5, 6, 7, 9), (0, 1, 2, 3, 4, 5, 8, 13, 20, 29))
        else: pats[w] = patterns(ctx, "boys", w, (5, 6, 7), (0, 3, 4, 12))
    nb = 30000 if deep else 5000
    for isa, cc, e in exes:
        p = pats[build.ISA_LEN[isa]]
        cs = [rnd.choice(p) for _ in range(nb)] if len(p) > nb else [c for c in p for _ in range(max(1, nb // len(p)))]
        lines = ["%d %d %s" % (c["n"], seed(), " ".join(map(str, c["cat"]))) for c in cs]
        # any mixture of kinds, also those left out of the wide patterns
        if build.ISA_LEN[isa] > 2:
            lines += ["%d %d %s" % (rnd.randrange(30), seed(), " ".join(str(rnd.randrange(10)) for _ in range(build.ISA_LEN[isa]))) for _ in range(nb)]
        if isa == "scalar" and cc == "gcc":         # all of a grid in steps of 1/10, on and off its points
            for k in range(366):
                for n in range(30):
                    lines += ["%d %d %d" % (n, seed(), off + k) for off in (1000, 2000, 3000)
                              if not (k == 365 and off < 3000) and not (k == 0 and off == 3000)]
        got = feed(ctx, e, lines, "boys %s %s" % (isa, cc))
        for x, ln in zip(got, lines):
            if x:
                evs.append(x)
                where.append("boys %s %s" % (isa, cc))
    nboys = len(evs)
    ctx.log("%d Boys vectors" % nboys)

    # ---- integrals and gradients
    cases = patterns(ctx, "eri")
    wide = isas[-1]
    plans = [("-l 2 -p 2 -d 1", "avx2" if "avx2" in isas else wide, 2, 1, 3600 if not deep else 30000),
             ("-l 1 -p 1 -d 1", wide, 1, 1, 1200 if not deep else 10000),
             ("-l 2 -p 2 -ve 0 -vg 5 -he 0 -hg 20 -d 0", "sse" if "sse" in isas else "scalar", 2, 0, 1200 if not deep else 10000)]
    if deep:
        plans.append(("-l 3 -p 3 -d 0", wide, 3, 0, 12000))
        plans.append(("-l 2 -p 2 -d 1", "scalar", 2, 1, 12000))
    worst = {}
    for opts, isa, maxl, maxder, cnt in plans:
        lib = b.lib(opts, isa)
        e = b.compile("num.cpp", lib=lib, flags=["-O2"], link=["-lmvec", "-lquadmath", "-lm"])
        lines = []
        for c in rnd.sample(cases, min(cnt, len(cases))):
            l = [rnd.randrange(maxl + 1) for _ in range(4)]
            der = rnd.randrange(maxder + 1)
            np = rnd.choice((1, 1, 3)) if sum(l) < 6 else 1
            lines.append("%d %d %d %d %d %d %s %s %d" % ((der,) + tuple(l) + (seed(), " ".join(map(str, c["x"])), " ".join(map(str, c["d"])), np)))
        for x, ln in zip(feed(ctx, e, lines, "integrals %s %s" % (opts, isa)), lines):
            if x:
                evs.append(x)
                where.append("%s %s" % (opts, isa))
                worst[opts + " " + isa] = max(worst.get(opts + " " + isa, 0), x["res"])
    ctx.log("%d integral calls; largest residuals (2^-53 of the scale) %s" % (len(evs) - nboys, worst))

    def describe(e, w):
        if e["ev"] == "boys":
            return "%s: F_0..F_%d of %s: errors %s (2^-53 of the value)%s" % (w, e["n"], e["x"], e["res"], " and stores outside" if e["over"] else "")
        return "%s: class %s order %d: residual %s (2^-53 of the scale of the class), returned %d; exponents %s, distances %s, seed %s" % (
            w, e["l"], e["der"], "not finite" if e["res"] < 0 else e["res"], e["n"], e["x"], e["d"], e["seed"])
    if evs:
        ctx.sample({"of": where[0], "event": evs[0]})
        ctx.sample({"of": where[-1], "event": evs[-1]})
    validate_events(ctx, "NumericTrace", evs, where, describe=describe)
    ctx.info.update(boys_vectors=nboys, integral_calls=len(evs) - nboys, reference_calls=len(oev), worst_residual=worst,
                    worst_boys={str(n): max([max(x["res"]) for x in evs[:nboys] if x["n"] == n] or [0]) for n in range(30)})
    ctx.assumptions += ["the 113-bit reference is computed by code whose formulas are validated over GF(p) by EriTrace; its Boys function is a series of positive terms",
                        "errors are measured against the magnitude of the terms an integral is the sum of, not against the integral"]
