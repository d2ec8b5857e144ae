"""P07: integral calls stay inside their buffers and depend only on their inputs."""
import itertools, json, random
from vt import core, build
from vt.build import run_harness


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    isas = build.cpu_isas()
    deep = not ctx.quick
    plan = [("sse", "-l 2 -p 2 -d 1", 2, 1), ("scalar", "-l 3 -p 3 -d 0", 3, 0), ("avx2", "-l 1 -p 1 -ve 20 -vg 20 -he 20 -hg 20 -d 1", 1, 1),
            ("avx", "-l 1 -p 2 -ve 0 -vg 4 -he 0 -hg 20 -d 1", 1, 1), ("commonavx512", "-l 1 -p 1 -d 1", 1, 1)]
    if deep:
        plan += [("sse", "-l 4 -p 4 -d 0", 4, 0), ("commonavx512", "-l 2 -p 2 -d 1", 2, 1), ("sse", "-l 2 -p 2 -ve 20 -vg 20 -he 20 -hg 20 -d 1", 2, 1)]
    jobs = []
    for isa, opts, lmax, dmax in plan:
        if isa not in isas:
            continue
        lib = b.lib(opts, isa)
        exe = b.compile("buffers.c", lib=lib)
        NS = 2 * build.ISA_LEN[isa]
        calls = []
        for der in range(dmax + 1):
            for am in itertools.product(range(lmax + 1), repeat=4):
                w = 12 ** der
                for x in am:
                    w *= (x + 1) * (x + 2) // 2
                shapes = [(1, 1, 1, 1, 0, 0), (2, NS + 1, 2, NS + 1, 0, 0)]
                if w <= 1000 or deep:
                    shapes += [(NS + 1, NS, NS, NS - 1 or 1, 2, 1e-3), (1, 2, 1, 1, 1, 1e-9)]
                for np_, nq, cp, cq, m, tol in shapes:
                    calls.append((der, m, tol) + am + (np_, nq, cp, cq, rnd.randrange(10 ** 6)))
        jobs.append((isa, opts, exe, calls))

    # histories from the specification: calls are drawn by number
    r = ctx.model_check("BuffersGen", "SPECIFICATION Spec\nCONSTANTS Calls={1,2,3,4,5,6,7} Depth=6 Fills={0,1,2,3,4}\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n",
                        simulate=20 if not deep else 100, depth=7, count=False)
    hists = r.prints("HIST")
    r = ctx.model_check("BuffersGen", "SPECIFICATION Spec\nCONSTANTS Calls={1,2} Depth=2 Fills={0,2,4}\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n")
    short = r.prints("HIST")
    ctx.log("%d + %d histories" % (len(hists), len(short)))

    tasks = []
    for isa, opts, exe, calls in jobs:
        order = list(range(len(calls)))
        rnd.shuffle(order)
        n = 8
        for k in range(n):
            mine = order[k::n]
            script = ["N %d %s" % (i, " ".join(map(str, calls[c]))) for i, c in enumerate(mine)]
            if k == 0:
                script.append("W")
            script.append("R")
            # every call with every kind of contents, with other calls in between
            for f in ((0, 0), (1, 2), (2, 1), (3, 0), (0, 3)):
                for i in range(len(mine)):
                    script.append("X %d %d %d" % (i, f[0], f[1]))
            rnd2 = random.Random(ctx.seed * 31 + k)
            nh = 40 if not deep else 400
            for h in rnd2.sample(short, min(len(short), nh)) + rnd2.sample(hists, min(len(hists), nh)):
                pick = {c: rnd2.randrange(len(mine)) for c in range(1, 8)}
                script.append("R")
                script += ["X %d %d %d" % (pick[c], fw, fo) for c, fw, fo in h]
            tasks.append((isa, opts, exe, [calls[c] for c in mine], script))

    def go(t):
        isa, opts, exe, calls, script = t
        rc, out, err = run_harness(exe, input="\n".join(script) + "\n", timeout=800)
        evs = []
        for o in out.splitlines():
            try:
                evs.append(json.loads(o))
            except ValueError:
                break
        bad, n = [], 0
        if rc != 0:
            bad.append(({"status": rc}, "the harness died after %d calls" % len(evs)))
        rest = evs
        while rest and len(bad) < 5:
            ok, m, _ = ctx.validate("BuffersTrace", rest)
            if ok:
                n += len(rest)
                break
            e = rest[m]
            n += m
            ok2, m2, _ = ctx.validate("BuffersTrace", rest[:m + 1], count=False)
            if ok2:
                raise core.CheckError("rejection did not repeat")
            bad.append((e, calls[e["id"]] if e["ev"] == "call" else ""))
            # later calls of the same kind are not asked again; memory is suspect but the rest is judged on its own
            rest = [x for x in rest[:m] if x["ev"] == "call" and x["id"] != e.get("id")][-400:] + \
                   [x for x in rest[m + 1:] if not (x["ev"] == "call" and x["id"] == e.get("id")) and x["ev"] != e["ev"] or x["ev"] == "call" and x["id"] != e.get("id")]
        return t, evs, bad, n
    tot = 0
    for (isa, opts, exe, calls, script), evs, bad, n in ctx.parallel(go, tasks):
        ctx.traces += n
        tot += len(evs)
        for e, c in bad:
            ctx.rejected += 1
            why = "disagrees with the specification"
            if e.get("died"): why = "died with signal %d (write outside its arrays or to its inputs)" % e["died"]
            elif e.get("guard"): why = "wrote outside the %s array" % {1: "work", 2: "output", 3: "work and output"}[e["guard"]]
            elif e.get("inputs"): why = "changed its inputs"
            elif e.get("nan"): why = "left NaN in the output"
            elif e.get("ev") == "size": why = "reported a wrong workspace size"
            elif e.get("ev") == "call": why = "gave another result than before (it depends on old contents of a buffer or on earlier calls)"
            ctx.violation("%s (%s): call %s %s: %s" % (isa, opts, c, why, json.dumps(e)), detail={"event": e, "call": c})
    ctx.info["calls"] = tot
    ctx.info["classes"] = sum(len(j[3]) for j in jobs)
    ctx.sample({"call": jobs[0][3][0], "history": hists[0]})
    ctx.assumptions += ["work and output have at least 128-byte alignment", "results are compared bitwise through a 60-bit hash"]
