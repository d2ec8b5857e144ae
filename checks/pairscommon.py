"""Shell-pair object histories: generated from PairsGen, executed by harness/pairs.c, validated by PairsTrace."""
import json, random
from vt import core, build
from vt.build import run_harness

SHELLS = [  # am, nprim, centre
    ("S", 1, 3, 0), ("S", 1, 1, 1), ("S", 1, 4, 0), ("SC", 0),
    ("S", 0, 2, 2), ("S", 0, 1, 0), ("S", 0, 5, 1), ("SZ",), ("S", 1, 2, 3)]


def shell_script(rnd):
    ctr = [[round(rnd.uniform(-1.5, 1.5), 3) for _ in range(3)] for _ in range(4)]
    out = []
    for i, s in enumerate(SHELLS):
        if s[0] == "SC":
            out.append("SC %d %d" % (s[1], i))
        elif s[0] == "SZ":
            out.append("SZ %d" % i)
        else:
            am, n, c = s[1:]
            al = [round(10 ** rnd.uniform(-0.7, 1.2), 4) for _ in range(n)]
            cf = [round(rnd.uniform(0.2, 1.5), 4) * rnd.choice((1, 1, -1)) for _ in range(n)]
            out.append("S %d %d %d %s %s %s" % (i, am, n, " ".join(map(str, ctr[c])), " ".join(map(str, al)), " ".join(map(str, cf))))
    out.append("G")
    return out


def lists(NS):
    """Pair lists; number n has class n % 2: even (p|s), odd (p|p). The sizes straddle the batch size NS."""
    pp = [[0, 0], [0, 1], [1, 0], [2, 2], [0, 3], [8, 0], [3, 3], [1, 1], [2, 0]]
    ps = [[0, 4], [1, 6], [2, 5], [0, 5], [3, 6], [8, 7], [1, 4]]
    rep = lambda base, k: [base[i % len(base)] for i in range(k)]
    return {1: [[0, 0]], 3: rep(pp, NS + 1), 5: rep(pp[3:] + pp[:3], 3), 7: rep([[1, 1], [1, 8], [0, 0]], NS), 9: [[1, 1]],
            11: rep(pp[1:], 2 * NS + 1),
            0: [[0, 4]], 2: rep(ps, NS - 1 if NS > 2 else 1), 4: rep(ps[2:], NS + 2), 6: [[8, 7]], 8: rep([[1, 5], [2, 6]], 4)}


# numbered as products A x B
PRODUCTS = {13: ([0, 1], [0, 2, 3]), 15: ([2], [2]), 12: ([0, 8, 1], [4, 5, 6]), 10: ([1], [5, 7])}


def script(hists, NS, single_ids=(1, 9, 0, 6), use=False, der=0, rnd=None):
    ls = lists(NS)
    out = []
    for k, h in enumerate(hists):
        out.append("H %d" % k)
        single = {}
        size = {}
        for op in h:
            o = op["id"]
            if op["op"] == "B":
                n = op["list"]
                if n in PRODUCTS:
                    A, B = PRODUCTS[n]
                    out.append("BP %d %d %d %s %d %s" % (o, op["m"], len(A), " ".join(map(str, A)), len(B), " ".join(map(str, B))))
                    size[o] = len(A) * len(B)
                else:
                    out.append("B %d %d %d %s" % (o, op["m"], len(ls[n]), " ".join("%d %d" % tuple(p) for p in ls[n])))
                    size[o] = len(ls[n])
                single[o] = size[o] == 1
            elif op["op"] == "F":
                out.append("F %d" % o)
                continue
            else:
                cs = all(single.get(x) for x in op["in"]) and (k % 3 != 0)
                out.append("%s %d %d %d %s" % ("CS" if cs else "C", o, op["m"], len(op["in"]), " ".join(map(str, op["in"]))))
                size[o] = sum(size[x] for x in op["in"])
                single[o] = size[o] == 1
                for x in sorted(set(op["in"])):
                    out.append("D %d" % x)
                if use and size[o] <= 40:
                    q = op["in"][0] if size[op["in"][0]] <= 3 else o
                    if size[q] <= 6:
                        out.append("U %d %d %d %s %d" % (o, q, len(op["in"]), " ".join(map(str, op["in"])), der if k % 2 else 0))
            out.append("D %d" % o)
    return out


def run_histories(ctx, plan, hists_by_isa, module="PairsTrace", use=False, parts=4):
    """plan: [(isa, exe, der)]"""
    jobs = []
    for isa, exe, der in plan:
        hs = hists_by_isa[isa]
        NS = 2 * build.ISA_LEN[isa]
        for k in range(parts):
            rnd = random.Random(ctx.seed * 100 + k)
            jobs.append((isa, exe, der, NS, hs[k::parts], shell_script(rnd)))

    env = {"ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=100000000:abort_on_error=0:exitcode=77"}

    def go(job):
        isa, exe, der, NS, hs, sh = job
        rc, out, err = run_harness(exe, input="\n".join(sh + script(hs, NS, use=use, der=der)) + "\n", timeout=600, env=env)
        recs = []
        for o in out.splitlines():
            try:
                recs.append(json.loads(o))
            except ValueError:
                break
        if rc != 0:
            lastk = [r["k"] for r in recs if r["ev"] == "reset"]
            tail = "\n".join(l for l in err.splitlines() if "ERROR" in l or "#" in l)[:600]
            ctx.violation("%s: shell-pair calls died (status %d) in history %s: %s" % (
                isa, rc, json.dumps(hs[lastk[-1]]) if lastk else "?", tail), detail=err[:3000])
        head, segs, cur = recs[:1], [], None
        for r in recs[1:]:
            if r["ev"] == "reset":
                cur = []
                segs.append(cur)
            if cur is not None:
                cur.append(r)
        n, bad = 0, 0
        while segs and bad < 4:
            flat, own = [], []
            for i, s in enumerate(segs):
                flat += s
                own += [i] * len(s)
            ok, m, r = ctx.validate(module, head + flat, heap="3g")
            if ok:
                n += len(flat)
                break
            m = max(m - 1, 0)
            n += m
            i = own[m]
            ok2, m2, _ = ctx.validate(module, head + segs[i], count=False)
            if ok2:
                raise core.CheckError("rejection did not repeat")
            ev = (head + segs[i])[m2]
            bad += 1
            ctx.rejected += 1
            short = {k: v for k, v in ev.items() if k in ("ev", "id", "m", "am", "nprim", "nshell12", "nprim12", "bad", "ret", "sum", "same", "smax", "never")}
            ctx.violation("%s: after the calls %s the object does not hold what it was built from: %s" % (
                isa, json.dumps([{k: v for k, v in x.items()} for x in segs[i] if x["ev"] not in ("dump", "use", "reset")])[:700], json.dumps(short)),
                detail={"history": segs[i][:m2 + 1]})
            segs = segs[i + 1:]
        return n, sum(1 for r in recs if r["ev"] == "dump")
    res = ctx.parallel(go, jobs)
    ctx.traces += sum(r[0] for r in res)
    ctx.info["objects_dumped"] = ctx.info.get("objects_dumped", 0) + sum(r[1] for r in res)


def gen(ctx, objs, lists_, methods, maxin, depth, simulate=None, seed=None):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Objs={%s} Lists={%s} Methods={%s} MaxIn=%d Depth=%d\nINVARIANTS Done Fit\nCHECK_DEADLOCK FALSE\n"
           % (",".join(map(str, objs)), ",".join(map(str, lists_)), ",".join(map(str, methods)), maxin, depth))
    r = ctx.model_check("PairsGen", cfg, simulate=simulate, depth=depth + 1 if simulate else None, seed=seed, workers=1)
    hs = r.prints("HIST")
    if simulate is None:
        return hs
    # the simulator also prints the last step's alternatives: keep one history per run
    seen = {}
    for h in hs:
        seen.setdefault(json.dumps(h[:-1]), []).append(h)
    rnd = random.Random(ctx.seed)
    return [rnd.choice(v) for v in seen.values()]
