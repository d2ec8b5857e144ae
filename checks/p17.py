"""P17: the Fortran interface is the C interface."""
import json, os, random
from vt import core, build
from vt.build import run_harness
from vt.core import sh, HARNESS

NS, NP = 5, 3
GEN = "SPECIFICATION Spec\nCONSTANTS NS=%d NP=%d MaxDer=%d MaxAm=%d Depth=%d Ready=%s\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION TraceSpec\nCONSTANTS NS=%d NP=%d MaxDer=%d MaxAm=%d\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def drivers(ctx, b, opts, isa, l, d, fflags, copt, maxder=None):
    lib = b.lib(opts, isa, fortran=True, fflags=fflags, maxder=maxder, copt="-O2")
    out = ctx.dir()
    fd = os.path.join(HARNESS, "fortran")
    flags = [f for f in build.ISA_FLAGS[isa] if f.startswith("-m")]
    sh(["gcc", "-std=gnu11", "-O1", "-w"] + lib.inc + flags + ["-c", os.path.join(fd, "helper.c"), "-o", os.path.join(out, "helper.o")], what="compile helper.c")
    c = os.path.join(out, "drv_c")
    sh(["gcc", "-std=gnu11", "-O1", "-w"] + lib.inc + flags + [os.path.join(fd, "drv.c"), os.path.join(out, "helper.o"), lib.a, "-lm", "-o", c], what="compile drv.c")
    f = os.path.join(out, "drv_f")
    p = sh(["gfortran", "-cpp", "-ffree-line-length-none", "-DSIMINT_OSTEI_MAXDER=%d" % d, "-DMAXAM=%d" % l, "-w"] + copt.split() + fflags.split()
           + ["-J", out, "-I", os.path.join(lib.build, "simint"), os.path.join(fd, "drv.f90"), os.path.join(out, "helper.o"), lib.a, "-lm", "-o", f], check=False)
    if p.returncode:
        raise core.BuildBroken("a program using the Fortran module does not compile: " + p.stdout[-3000:])
    return c, f


def script(hist):
    out = []
    for h in hist:
        out.append("R")
        for o in h:
            out.append(" ".join(map(str, [o["op"], len(o["x"])] + o["x"] + o["s"] + o["p"])))
    return "\n".join(out) + "\n"


def lines(out):
    evs = []
    for line in out.splitlines():
        try:
            evs.append(json.loads(line))
        except ValueError:
            break
    return [e for e in evs if e["op"] != "reset"]


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    # (options, instruction set, l, d of the library, Fortran options of the module, options of the program, SIMINT_MAXDER)
    confs = [("-l 1 -p 1 -d 1", "scalar", 1, 1, "", "-O2", None),
             ("-l 1 -p 1 -d 1", "scalar", 1, 1, "", "-O0 -fcheck=all", None),
             ("-l 1 -p 1 -d 1", "scalar", 1, 0, "", "-O2", 0),
             ("-l 1 -p 1 -d 1", "scalar", 1, 1, "-fdefault-integer-8", "-O1", None)]
    if deep:
        confs += [("-l 2 -p 2 -d 1", "scalar", 2, 1, "", "-O3", None), ("-l 2 -p 2 -d 0", "scalar", 2, 0, "", "-O2", None),
                  ("-l 2 -p 2 -d 1", "scalar", 2, 1, "-fdefault-integer-8", "-O2", None)]
    n = 60 if not deep else 400
    gens = [(l, d, ready, depth, n, ctx.seed * 1000 + i) for i, (l, d, ready, depth) in
            enumerate([(1, 1, True, 34), (1, 1, True, 22), (1, 1, False, 24), (1, 0, True, 34), (1, 0, False, 20)] + ([(2, 1, True, 40), (2, 0, True, 30)] if deep else []))]

    def gen(g):
        l, d, ready, depth, num, seed = g
        r = ctx.tlc("FortranGen", GEN % (NS, NP, d, l, depth, "TRUE" if ready else "FALSE"), simulate=num, depth=4 * depth, seed=seed, count=False)
        if not r.ok:
            raise core.CheckError("FortranGen: " + r.out[-1500:])
        return r.prints("HIST")
    hists = {}
    for g, hs in zip(gens, ctx.parallel(gen, gens)):
        hists.setdefault((g[0], g[1]), []).extend(hs)
    ctx.log("histories: %s" % {k: len(v) for k, v in hists.items()})
    built = []
    for c in confs:
        try:
            built.append((c, drivers(ctx, b, c[0], c[1], c[2], c[3], c[4], c[5], c[6])))
        except core.BuildBroken as e:
            ctx.violation("%s: %s" % (c[:5], e))
    jobs = []
    for c, (cx, fx) in built:
        hs = hists[c[2], c[3]]
        for k in range(4):
            jobs.append((c, cx, fx, hs[k::4]))
    ops = {}

    def rec(j):
        c, cx, fx, hs = j
        text = script(hs)
        res = []
        for exe in (cx, fx):
            rc, out, err = run_harness(exe, input=text, timeout=300)
            res.append((rc, lines(out), err))
        return res
    traces = []
    for (c, cx, fx, hs), res in zip(jobs, ctx.parallel(rec, jobs)):
        name = "create.py %s, SIMINT_MAXDER=%d, %s %s" % (c[0], c[3], c[4], c[5])
        (rc1, le, er1), (rc2, lf, er2) = res
        calls = [(h, k) for h in hs for k in range(len(h))]
        for what, rc, ev, er in (("C", rc1, le, er1), ("Fortran", rc2, lf, er2)):
            if rc != 0:
                h, k = calls[min(max(0, len(ev) - 1), len(calls) - 1)]
                ctx.violation("%s: the %s program ended with status %d in %s %s: %s" % (name, what, rc, h[k]["op"], h[k]["x"], " ".join(er.split())[-300:]),
                              detail={"history": h[:k + 1]})
        evs, where = [], []
        if lf:
            evs.append({"ev": "layout", "c": lf[0]["c"], "f": lf[0]["f"]}); where.append(None)
        i = 1
        for h in hs:
            evs.append({"ev": "start"}); where.append(None)
            for k, o in enumerate(h):
                if i >= len(le) or i >= len(lf):
                    break
                x, y = le[i], lf[i]
                evs.append({"ev": "call", "op": o["op"], "x": o["x"], "rc": x["r"], "rf": y["r"], "c": x["c"], "m": y["c"], "f": y["f"]})
                where.append((h, k)); ops[o["op"]] = ops.get(o["op"], 0) + 1
                i += 1
            else:
                continue
            break
        traces.append((name, c, evs, where))

    def val(t):
        name, c, evs, where = t
        ok, m, r = ctx.validate("FortranTrace", evs, cfg=TRACE % (NS, NP, c[3], c[2]))
        return ok, m
    seen = set()
    for (name, c, evs, where), (ok, m) in zip(traces, ctx.parallel(val, traces)):
        if ok:
            ctx.traces += 1
            continue
        ctx.rejected += 1
        e = evs[m]
        if e["ev"] == "layout":
            what = "the derived types are laid out differently: C %s, Fortran %s" % (e["c"], e["f"])
        else:
            diff = [] if e["rc"] == e["rf"] else ["results C %s, Fortran %s" % (e["rc"], e["rf"])]
            for kind, cc, mm, ff in zip(("shell", "pair"), e["c"], e["m"], e["f"]):
                for i, (p, q, s) in enumerate(zip(cc, mm, ff)):
                    diff += ["%s %d member %d: C %s, Fortran's object %s, seen from Fortran %s" % (kind, i + 1, j + 1, u, v, w)
                             for j, (u, v, w) in enumerate(zip(p, q, s)) if not u == v == w]
            what = "%s %s: %s" % (e["op"], e["x"], "; ".join(diff[:3]) or "the objects do not hold what the call makes of them")
        if (name, what) not in seen:
            seen.add((name, what))
            h = where[m]
            ctx.violation("%s: %s" % (name, what), detail={"event": e, "history": h[0][:h[1] + 1] if h else []})
    ctx.info.update(calls=ops, programs=["%s maxder %d %s %s" % (c[0], c[3], c[4], c[5]) for c, _ in built])
    if traces:
        ctx.sample({"program": traces[0][0], "events": traces[0][2][:3]})
    ctx.assumptions += ["gfortran; the interface built as simint's own CMake builds it",
                        "sizes of work space are returned in default integers: within range for every class the generator knows"]
