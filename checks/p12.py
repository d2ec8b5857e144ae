"""P12: general recurrence routines and index tables are exact up to their highest order."""
import itertools, json, random
from vt import core, build
from vt.build import run_harness
from vt.trace import validate_events


def nc(l):
    n = 1
    for x in l:
        n *= (x + 1) * (x + 2) // 2
    return n


def cases(rnd, deep, real):
    res = ["table"]
    s = lambda: rnd.randrange(10**9)
    small = list(itertools.product(range(3 if not real else 2), repeat=4))
    for l in small:
        for c in range(4):
            if l[c] and nc(l) <= (1300 if deep else 220):
                res.append("vrr %d %d %d %d %d %d %d" % ((c,) + l + (1 + rnd.randrange(3), s())))
                res.append("hrr %d %d %d %d %d %d" % ((c,) + l + (s(),)))
    top = 18 if not real else 5
    for am in range(1, top + 1):
        for c in range(4):
            res.append("vrr1 %d %d %d %d" % (c, am, 1 + rnd.randrange(4), s()))
            l = [0, 0, 0, 0]
            l[c] = am
            res.append("vrr %d %d %d %d %d %d %d" % ((c,) + tuple(l) + (1 + rnd.randrange(3), s())))
            if am < 18:
                res.append("hrr %d %d %d %d %d %d" % ((c,) + tuple(l) + (s(),)))
    # pairs and quartets of higher momenta
    for _ in range((300 if deep else 90) if not real else 20):
        hi = 11 if not real else 3
        l = [0, 0, 0, 0]
        for x in rnd.sample(range(4), rnd.choice((2, 2, 2, 3, 4))):
            l[x] = rnd.randrange(hi)
        if nc(l) > (2500 if deep else 1200) or not any(l) or sum(l) > 20:
            continue
        for c in range(4):
            if l[c]:
                res.append("vrr %d %d %d %d %d %d %d" % ((c,) + tuple(l) + (1 + rnd.randrange(4), s())))
                if l[c ^ 1] < 18:
                    res.append("hrr %d %d %d %d %d %d" % ((c,) + tuple(l) + (s(),)))
    return res


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    deep = not ctx.quick
    plans = [("GF(p)", build.gf_build(b, "-l 1 -p 1 -d 1", ["kern.cpp"])["kern.cpp"], cases(rnd, deep, False))]
    for isa in build.cpu_isas():
        lib = b.lib("-l 1 -p 1 -d 1", isa)
        plans.append((isa, b.compile("gf/kern.cpp", lib=lib), cases(rnd, deep, True)))
    jobs = []
    for label, exe, lines in plans:
        rnd.shuffle(lines)
        for k in range(4):
            jobs.append((label, exe, lines[k::4]))
    events, where = [], []
    for (label, exe, lines), (rc, out, err) in zip(jobs, ctx.parallel(lambda j: run_harness(j[1], input="\n".join(j[2]) + "\n"), jobs)):
        recs = []
        for o in out.splitlines():
            try:
                recs.append(json.loads(o))
            except ValueError:
                pass
        if rc != 0:
            for ln in lines:      # find the one that dies
                if run_harness(exe, input=ln + "\n")[0] != 0:
                    ctx.violation("%s: step died (status %d): %s" % (label, rc, ln))
                    break
            else:
                raise core.CheckError("harness status %d not reproduced" % rc)
        for r in recs:
            if r["ev"] == "skip":
                continue
            events.append(r)
            where.append(label)
    ctx.log("%d steps recorded" % len(events))
    order = list(range(len(events)))
    rnd.shuffle(order)
    events, where = [events[i] for i in order], [where[i] for i in order]
    def describe(e, w):
        if e["ev"] == "table":
            return "index table of momentum %d is wrong" % e["am"]
        return "%s: %s step on centre %d to class %s, %d orders: wrong integrals%s" % (
            w, e["ev"], e["c"], e["l"], e["n"], " (wrote past the result)" if e["over"] else "")
    validate_events(ctx, "KernelsTrace", events, where, describe=describe, chunk=-(-len(events) // core.NCPU), limit=4)
    ctx.info["steps_by_kind"] = {k: sum(1 for e in events if e["ev"] == k) for k in ("vrr", "vrr1", "hrr", "table")}
    ctx.info["steps_by_build"] = {p[0]: sum(1 for w in where if w == p[0]) for p in plans}
    ctx.info["classes"] = len({(e["ev"], e["c"], tuple(e["l"])) for e in events if "l" in e})
    e = min((e for e in events if "l" in e), key=lambda e: len(str(e)))
    ctx.sample(e)
    ctx.assumptions += ["steps are given consistent lower integrals, so any admissible choice of direction is accepted",
                        "with real doubles the inputs are small integers: all values are exact below 2^53 and are compared modulo p"]
