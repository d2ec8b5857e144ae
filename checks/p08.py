"""P08: generator options change the form of the code, never the integrals."""
import itertools, random
from vt import core, build
from checks import gfcommon


def option_sets(deep, rnd):
    # ve vg he hg: from this angular momentum on a step is a separate function / the general routine
    th = lambda ve, vg, he, hg: "-ve %d -vg %d -he %d -hg %d" % (ve, vg, he, hg)
    sets = [("-l 2 -p 2 -d 0", 2, 0)]
    for p, t in ((2, th(20, 20, 20, 20)), (0, th(0, 20, 0, 20)), (1, th(0, 0, 0, 0)), (2, th(0, 3, 0, 2)), (2, th(2, 20, 1, 3))):
        sets.append(("-l 2 -p %d %s -d 0" % (p, t), 2, 0))
    for p, t in ((1, th(20, 20, 20, 20)), (0, th(0, 20, 0, 20)), (1, th(0, 2, 1, 2)), (0, "")):
        sets.append(("-l 1 -p %d %s -d 1" % (p, t), 1, 1))
    sets.append(("-l 2 -p 2 -d 1", 2, 1))
    sets.append(("-l 2 -p 1 %s -d 1" % th(0, 20, 0, 20), 2, 1))
    sets.append(("-l 3 -p 3 -d 0", 3, 0))
    sets.append(("-l 3 -p 2 %s -d 0" % th(0, 4, 0, 20), 3, 0))
    sets.append(("-l 3 -p 0 %s -d 0" % th(20, 20, 20, 20), 3, 0))
    if deep:
        for p in (0, 1, 2, 3):
            for v in ((0, 20), (0, 2), (1, 2), (3, 5), (20, 20), (0, 0)):
                for h in ((0, 20), (0, 2), (1, 2), (20, 20)):
                    if rnd.random() < 0.35:
                        sets.append(("-l 2 -p %d %s -d 0" % (p, th(*(v + h))), 2, 0))
                    if rnd.random() < 0.2:
                        sets.append(("-l 1 -p %d %s -d 1" % (p, th(*(v + h))), 1, 1))
        sets.append(("-l 4 -p 4 -d 0", 4, 0))
        sets.append(("-l 4 -p 2 %s -d 0" % th(0, 6, 0, 20), 4, 0))
    return sets


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    deep = not ctx.quick
    sets = option_sets(deep, rnd)

    # inputs: per order and class one input, the same for every option set
    seeds = {}

    def line(der, am, mode):
        return "%d %d %d %d %d %d %d" % ((der,) + tuple(am) + (mode, seeds.setdefault((der, am), rnd.randrange(10**9))))
    big = [a for a in itertools.product(range(4), repeat=4) if max(a) == 3 and gfcommon.ncomp(a) <= 2500]
    pick3 = set(rnd.sample(big, 10)) | {(3, 0, 3, 0), (0, 3, 3, 0), (3, 0, 0, 3), (1, 3, 0, 1)}
    big1 = [a for a in itertools.product(range(3), repeat=4) if max(a) == 2 and gfcommon.ncomp(a) <= 700]
    pick2 = set(rnd.sample(big1, 14)) | {(2, 0, 2, 0), (0, 2, 0, 1), (1, 2, 2, 0)}
    big4 = [a for a in itertools.product(range(5), repeat=4) if max(a) == 4 and gfcommon.ncomp(a) <= 5000]
    pick4 = set(rnd.sample(big4, 12))

    def one(s):
        opts, l, der = s
        cls = None
        if l == 3: cls = sorted(pick3)
        if l == 4: cls = sorted(pick4)
        if l == 2 and der == 1 and not deep: cls = sorted(pick2)
        exe = build.gf_build(b, opts, ["gf_eri.cpp"], classes=cls, jobs=4)["gf_eri.cpp"]
        ams = cls or list(itertools.product(range(l + 1), repeat=4))
        lines = [line(der, am, 1 if gfcommon.ncomp(am) <= 20 else 0) for am in ams]
        if cls is None:
            # classes of other limits, so that sets with different -l meet
            lines += [line(der, am, 1 if gfcommon.ncomp(am) <= 20 else 0) for am in (pick2 if l >= 2 else ())]
        return exe, opts, sorted(set(lines))
    b.generator()
    plans = ctx.parallel(one, sets, 3)
    events, where = gfcommon.record(ctx, plans)
    ctx.log("%d calls recorded with %d option sets" % (len(events), len(sets)))
    # all events of one input go into one trace
    groups = {}
    for i, (e, w) in enumerate(zip(events, where)):
        e["key"] = w[1]
        groups.setdefault(w[1], []).append(i)
    keep = ("ev", "key", "ret", "over", "out")
    bins = [[] for _ in range(core.NCPU * 2)]
    for k, g in enumerate(sorted(groups.values(), key=lambda g: -len(g) * len(events[g[0]]["out"]))):
        bins[k % len(bins)] += g

    def val(idx):
        bad, n = [], 0
        while idx and len(bad) < 5:
            ok, m, r = ctx.validate("OptionsTrace", [{k: events[i][k] for k in keep} for i in idx])
            if ok:
                return bad, n + len(idx)
            n += m
            bad.append(idx[m])
            key = events[idx[m]]["key"]
            idx = [i for i in idx[m + 1:] if events[i]["key"] != key]
        return bad, n
    for bad, n in ctx.parallel(val, bins):
        ctx.traces += n
        for i in bad:
            e = events[i]
            others = [where[j][0] for j in groups[e["key"]] if events[j]["out"] != e["out"]]
            ctx.rejected += 1
            ctx.violation("class %s order %d: the library generated with (%s) differs from those generated with %s%s" % (
                e["l"], e["der"], where[i][0], sorted(set(others))[:4],
                " - undefined values" if min(e["out"]) < 0 else ""), detail={"input": where[i]})
    # the shared values are the defined integrals: one event per input, small classes
    one_each = [g[0] for g in groups.values() if gfcommon.cost(events[g[0]]) < 40000]
    if not deep:
        one_each = rnd.sample(one_each, min(60, len(one_each)))
    if not ctx.violations:
        gfcommon.validate(ctx, [events[i] for i in one_each], [where[i] for i in one_each])
    ctx.info["option_sets"] = [s[0] for s in sets]
    ctx.info["inputs"] = len(groups)
    ctx.sample({"option sets": [s[0] for s in sets][:4]})
    ctx.sample({"input": min(groups, key=lambda k: len(events[groups[k][0]]["out"])), "agreeing libraries": max(len(g) for g in groups.values())})
    ctx.assumptions += ["arithmetic interpreted in GF(46327)", "scalar lane"]
