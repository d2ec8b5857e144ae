"""P06: screening never drops a primitive quartet that reaches the tolerance."""
import itertools, json, random
from vt import core, build
from vt.build import run_harness
from vt.trace import validate_events


def algo_cfg(L, NS, mp, mq, pp, pq, vals, tol, clips, emit):
    return ("SPECIFICATION Spec\nCONSTANTS L=%d NS=%d MaxP=%d MaxQ=%d MaxPrimP=%d MaxPrimQ=%d ScreenVals={%s} Tol=%d "
            "Clips=%s Emit=%s\nINVARIANTS InStorage NoStray Sound SkipJustified\nCHECK_DEADLOCK FALSE\n"
            % (L, NS, mp, mq, pp, pq, ",".join(map(str, vals)), tol, str(clips).upper(), str(emit).upper()))


def line(der, am, c):
    flat = lambda s: " ".join(str(v) for p in s for v in p)
    return "%d %d %d %d %d %d %s %d %s %d %d 2 0 %s %s %d" % (
        (der,) + tuple(am) + (len(c["P"]), " ".join(map(str, c["P"])), len(c["Q"]), " ".join(map(str, c["Q"])),
                              c["cp"], c["cq"], flat(c["sP"]), flat(c["sQ"]), c["tol"]))


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    isas = build.cpu_isas()
    deep = not ctx.quick
    # 1. the loop nest with screening, exhaustively
    models = [(1, 2, 1, 2, 2, 2, (0, 1, 2, 4), 4, True, True), (2, 4, 1, 2, 2, 2, (0, 1, 2), 1, True, True),
              (2, 4, 2, 2, 1, 2, (0, 1, 2), 4, True, True), (4, 8, 1, 2, 1, 3, (0, 2), 4, True, True), (1, 2, 3, 1, 1, 2, (0, 1, 2), 4, False, False)]
    if deep:
        models += [(1, 2, 2, 2, 2, 2, (0, 1, 2), 2, True, False), (2, 4, 1, 3, 2, 2, (0, 1, 3), 3, True, False),
                   (2, 4, 2, 2, 1, 3, (0, 1, 2), 2, True, False), (4, 8, 1, 2, 1, 3, (0, 1, 2), 2, True, False)]
    cfgs = {}

    def mc(m):
        r = ctx.model_check("BatchAlgo", algo_cfg(*m), workers=2, heap="4g")
        for c in r.prints("CFG"):
            # shell pairs store non-increasing values; the tolerance has to be an integer for the replay
            if all(p == sorted(p, reverse=True) for p in c["sP"] + c["sQ"]):
                t = {4: 2, 1: 1}.get(c["tol2"])
                for k in ([t] if t else [1, 2]):
                    cfgs.setdefault(m[0], []).append(dict(c, tol=k))
        return r
    runs = ctx.parallel(mc, models, 4)
    ctx.info["model_states"] = sum(r.distinct for r in runs)
    ctx.log("model checked: %d states, configurations %s" % (ctx.info["model_states"], {k: len(v) for k, v in cfgs.items()}))

    # 2. replay
    plan = [("sse", "-l 2 -p 2 -d 1", 2, 1), ("scalar", "-l 1 -p 1 -d 1", 1, 1), ("avx", "-l 1 -p 2 -ve 0 -vg 4 -he 0 -hg 20 -d 1", 1, 1),
            ("avx2", "-l 1 -p 1 -ve 20 -vg 20 -he 20 -hg 20 -d 1", 1, 1), ("commonavx512", "-l 1 -p 1 -d 1", 1, 1)]
    jobs = []
    for isa, opts, lmax, dmax in plan:
        if isa not in isas:
            continue
        lib = b.lib(opts, isa)
        exe, exe2 = b.compile("batch.c", lib=lib), b.compile("screen.c", lib=lib)
        L = build.ISA_LEN[isa]
        r = ctx.model_check("BatchGen", "SPECIFICATION Spec\nCONSTANTS N=%d MaxP=%d MaxQ=%d MaxPrim=%d Vals={0,1,2,3,4,6,9} Tols={1,2,3,4,6}\nCHECK_DEADLOCK FALSE\n"
                            % (800 if deep else 150, 5 if L < 8 else 3, 3 * L + 3, 4), simulate=1, depth=1000, count=False)
        sim = [c for c in r.prints("CFG") if sum(c["P"]) * -(-sum(c["Q"]) // 12) * sum(c["P"]) * sum(c["Q"]) < 30000]
        gen = cfgs.get(L, [])
        lines, lines2 = [], []
        for der in range(dmax + 1):
            for am in itertools.product(range(lmax + 1), repeat=4):
                w = 1
                for x in am:
                    w *= (x + 1) * (x + 2) // 2
                k = 200 if am == (0, 0, 0, 0) else (20 if w <= 27 else 5)
                if deep: k *= 5
                for c in rnd.sample(gen, min(k, len(gen))) + rnd.sample(sim, min(len(sim), max(2, k // 3))):
                    lines.append(line(der, am, c))
                for m in (1, 2):
                    for _ in range(1 if not deep else 4):
                        np_, nq = rnd.randrange(1, 2 * L + 2 if L < 8 else 4), rnd.randrange(1, 3 * L + 2)
                        lines2.append("B %d %d %d %d %d %d %d %d %d %d %d %d" % (
                            (der, m) + am + (np_, nq, rnd.randrange(1, np_ + 1), rnd.randrange(1, nq + 1), rnd.choice((0, 1, 2, 3, 5, 8)), rnd.randrange(10 ** 6))))
        for l1, l2 in itertools.product(range(lmax + 1), repeat=2):
            for m in (1, 2):
                for _ in range(4):
                    lines2.append("V %d %d %d 0 %d %d %d" % (m, l1, l2, rnd.randrange(1, 5), rnd.randrange(1, 5), rnd.randrange(10 ** 6)))
                if l1 == l2:
                    for n in range(1, 5):
                        lines2.append("V %d %d %d 1 %d %d %d" % (m, l1, l2, n, n, rnd.randrange(10 ** 6)))
        for ex, ls in ((exe, lines), (exe2, lines2)):
            rnd.shuffle(ls)
            for k in range(8):
                if ls[k::8]:
                    jobs.append((ex, isa, opts, ls[k::8]))

    def go(job):
        exe, isa, opts, lines = job
        rc, out, err = run_harness(exe, input="\n".join(lines) + "\n", timeout=800)
        return job, rc, out.splitlines()
    events, where = [], []
    for (exe, isa, opts, lines), rc, out in ctx.parallel(go, jobs):
        for ln, o in zip(lines, out):
            try:
                events.append(json.loads(o))
                where.append((isa, opts, ln))
            except ValueError:
                break
        if rc != 0:
            ctx.violation("%s (%s): a screened call died with status %d on: %s" % (isa, opts, rc, lines[len(out)] if len(out) < len(lines) else "?"))
    ctx.log("%d calls recorded" % len(events))
    for k in ("screen", "bound", "vals"):
        ctx.sample({k: next(e for e in events if e["ev"] == k)})
    ctx.info["events"] = {k: sum(1 for e in events if e["ev"] == k) for k in ("screen", "bound", "vals")}
    sc = [e for e in events if e["ev"] == "screen"]
    ctx.info["calls_with_something_skipped"] = sum(1 for e in sc if sum(len(o) for o in e["out"]) < sum(e["P"][:e["cp"]]) * sum(e["Q"][:e["cq"]]))
    ctx.info["calls_all_skipped"] = sum(1 for e in sc if e["ret"] == -1)

    def desc(e, w):
        return "%s (%s): %s" % (w[0], w[1], {"screen": "a call with screening values lost, repeated or misplaced primitive quartets, or returned %s" % e.get("ret"),
                                              "bound": "screened integrals differ by more than the tolerance allows, or returned %s" % e.get("ret"),
                                              "vals": "screening values are not the self-repulsion integrals"}[e["ev"]]) + ": " + json.dumps(e)[:400]
    validate_events(ctx, "BatchTrace", events, where, describe=desc)
    ctx.assumptions += ["screening values of one pair are non-increasing and filler has value zero, as shell pairs are built (P04)",
                        "the bound by the tolerance is checked for plain integrals with Schwarz values; derivatives have no such bound"]
