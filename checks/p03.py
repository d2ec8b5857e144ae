"""P03: batched shell pairs - each primitive quartet lands once in its own shell quartet."""
import itertools, json, random
from vt import core, build
from vt.build import run_harness
from vt.trace import validate_events


def algo_cfg(L, NS, mp, mq, pp, pq, clips=True, emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS L=%d NS=%d MaxP=%d MaxQ=%d MaxPrimP=%d MaxPrimQ=%d ScreenVals={} Tol=0 "
            "Clips=%s Emit=%s\nINVARIANTS InStorage NoStray Complete\nCHECK_DEADLOCK FALSE\n"
            % (L, NS, mp, mq, pp, pq, str(clips).upper(), str(emit).upper()))


def structured(L):
    """Configurations around the boundaries of batches and vectors."""
    NS = 2 * L
    res = []
    def add(P, Q, cp=None, cq=None):
        res.append({"P": P, "Q": Q, "cp": cp or len(P), "cq": cq or len(Q)})
    add([1], [1])
    add([2, 1], [1] * (NS + 1))
    add([1] * (NS + 1), [3, 1, 2])
    add([3] + [1] * NS, [2, 3], cq=1)
    add([1, 2], [3] * NS + [1, 2], cq=NS + 1)
    add([2], [L + 1, 1, 1], cq=2)
    add([1] * NS + [2, 1], [1] * (L - 1) + [2, 1], cp=NS + 1, cq=max(1, L - 1))
    return res


def hard(L):
    NS = 2 * L
    return [{"P": [2] + [1] * NS, "Q": [1, 3] + [1] * (NS - 1), "cp": NS + 1, "cq": NS},
            {"P": [1, 2], "Q": [2, 1, L, 1], "cp": 2, "cq": 3}]


def line(der, am, c, mode, seed):
    return "%d %d %d %d %d %d %s %d %s %d %d %d %d" % (
        (der,) + tuple(am) + (len(c["P"]), " ".join(map(str, c["P"])), len(c["Q"]), " ".join(map(str, c["Q"])),
                              c["cp"], c["cq"], mode, seed))


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    isas = build.cpu_isas()
    deep = not ctx.quick

    # 1. the algorithm model, exhaustively within small constants (independent of the code)
    models = [(1, 2, 3, 3, 2, 2), (2, 4, 1, 5, 2, 3), (2, 4, 5, 1, 2, 2), (4, 8, 1, 3, 1, 5)]
    if deep:
        models += [(2, 4, 5, 2, 3, 2), (2, 4, 2, 5, 2, 3), (4, 8, 1, 9, 1, 2), (1, 2, 4, 4, 2, 2)]
    cfgs = {}

    def mc(m):
        emit = m == (2, 4, 1, 5, 2, 3) or m == (2, 4, 5, 1, 2, 2) or m == (1, 2, 3, 3, 2, 2)
        r = ctx.model_check("BatchAlgo", algo_cfg(*m, emit=emit), workers=2)
        if emit:
            cfgs.setdefault(m[0], []).extend(r.prints("CFG"))
        return r
    model_runs = ctx.parallel(mc, models, 4)
    ctx.info["model_states"] = sum(r.distinct for r in model_runs)
    ctx.log("algorithm model checked: %d states" % ctx.info["model_states"])

    # 2. libraries
    plan = [("sse", "-l 2 -p 2 -d 1", 2, 1)]
    small = [("scalar", "-l 1 -p 1 -d 1"), ("avx", "-l 1 -p 2 -ve 0 -vg 4 -he 0 -hg 20 -d 1"),
             ("avx2", "-l 1 -p 1 -ve 20 -vg 20 -he 20 -hg 20 -d 1"), ("commonavx512", "-l 1 -p 1 -d 1")]
    if deep:
        small = [(i, o.replace("-l 1 -p 1", "-l 2 -p 2").replace("-l 1 -p 2", "-l 2 -p 3")) for i, o in small]
        plan.append(("sse", "-l 3 -p 3 -d 0", 3, 0))
    plan += [(i, o, 2 if deep else 1, 1) for i, o in small if i in isas]
    libs = [(p, b.lib(p[1], p[0])) for p in plan]

    jobs = []
    for (isa, opts, lmax, dmax), lib in libs:
        exe = b.compile("batch.c", lib=lib)
        L = build.ISA_LEN[isa]
        # configurations generated from the specification
        gen = list(cfgs.get(L, []))
        r = ctx.model_check("BatchGen", "SPECIFICATION Spec\nCONSTANTS N=%d MaxP=%d MaxQ=%d MaxPrim=%d Vals={} Tols={}\nCHECK_DEADLOCK FALSE\n"
                            % (120 if deep else 30, 2 * L + 2 if L < 8 else 4, 4 * L + 3, 5), simulate=1, depth=200, count=False)
        sim = r.prints("CFG")
        cost = lambda c: sum(c["P"]) * -(-sum(c["Q"]) // 12) * sum(c["P"]) * sum(c["Q"])
        sim = [c for c in sim if cost(c) < 60000]
        lines = []
        ams = list(itertools.product(range(lmax + 1), repeat=4))
        for der in range(dmax + 1):
            for am in ams:
                w = 1
                for x in am:
                    w *= (x + 1) * (x + 2) // 2
                if am == (0, 0, 0, 0):
                    cs = gen + structured(L) + hard(L) + sim
                elif w <= 9:
                    cs = structured(L) + hard(L) + rnd.sample(sim, min(2, len(sim)))
                else:
                    cs = hard(L) if w <= 108 else hard(L)[1:] + hard(L)[:1 if deep else 0]
                for c in cs:
                    lines.append(line(der, am, c, 0, 0))
                for c in (structured(L) + hard(L) if w <= 81 else hard(L)):
                    lines.append(line(der, am, c, 1, rnd.randrange(10**6)))
        rnd.shuffle(lines)
        n = max(1, core.NCPU * 2)
        for k in range(n):
            if lines[k::n]:
                jobs.append((exe, isa, opts, lines[k::n]))

    def go(job):
        exe, isa, opts, lines = job
        rc, out, err = run_harness(exe, input="\n".join(lines) + "\n", timeout=800)
        return job, rc, out.splitlines()
    events, where = [], []
    for (exe, isa, opts, lines), rc, out in ctx.parallel(go, jobs):
        for ln, o in zip(lines, out):
            try:
                events.append(json.loads(o))
            except ValueError:
                continue
            where.append((isa, opts, ln))
        if rc != 0:
            bad = lines[len(out)] if len(out) < len(lines) else "?"
            rc2, o2, _ = run_harness(exe, input=bad + "\n", timeout=300)
            ctx.violation("%s (%s): the call died with status %d on: %s (alone: %d)" % (isa, opts, rc, bad, rc2))
    ctx.log("%d calls recorded" % len(events))
    ctx.sample({"call": events[0], "library": where[0][:2]})
    ctx.sample({"alone": next(e for e in events if e["ev"] == "alone")})

    # 3. validation
    validate_events(ctx, "BatchTrace", events, where)
    ctx.info["calls_by_isa"] = {i: sum(1 for w in where if w[0] == i) for i in isas}
    ctx.info["classes"] = len({(e["der"], tuple(e["am"])) for e in events})
    ctx.assumptions += ["contribution counts are decoded modulo 4 from values linear in the contraction coefficients",
                        "screening off (screening is P06)"]
