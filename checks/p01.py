"""P01: every generated ERI function computes exactly the integral class it names."""
import itertools, random
from vt import core, build
from checks import gfcommon


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    deep = not ctx.quick
    specs = [("-l 3 -p 3 -d 0", 3, None),
             ("-l 2 -p 2 -ve 20 -vg 20 -he 20 -hg 20 -d 0", 2, None),
             ("-l 2 -p 2 -ve 0 -vg 5 -he 0 -hg 20 -d 0", 2, None)]
    # higher angular momenta, by sample (thorough: all of them up to l = 4)
    canon = [a for a in itertools.product(range(5), repeat=4) if max(a) == 4 and gfcommon.ncomp(a) <= 4000]
    specs.append(("-l 4 -p 4 -d 0", 4, None if deep else rnd.sample(canon, 5)))
    if deep:
        c5 = [a for a in itertools.product(range(6), repeat=4) if max(a) == 5 and gfcommon.ncomp(a) <= 30000]
        specs.append(("-l 5 -p 5 -d 0", 5, rnd.sample(c5, 30)))
        specs.append(("-l 3 -p 0 -d 0", 3, None))
    plans = []
    for opts, lmax, cls in specs:
        exe = build.gf_build(b, opts, ["gf_eri.cpp"], classes=cls)["gf_eri.cpp"]
        ams = list(itertools.product(range(lmax + 1), repeat=4))
        if cls is not None:
            ams = [o for am in cls for o in build.orbit(am)]
            ams = sorted(set(cls) | set(rnd.sample(sorted(set(ams)), min(6, len(set(ams))))))
        lines = []
        for am in ams:
            n = gfcommon.ncomp(am)
            line = lambda mode: "0 %d %d %d %d %d %d" % (tuple(am) + (mode, rnd.randrange(10**9)))
            # mode 0: generic; 1: contracted, coinciding centres; 2: shells paired with themselves
            if cls is not None:
                lines.append(line(0))
            elif deep:
                lines += [line(m) for m in ((0, 1, 2) if n < 3000 else (0, 1) if n < 12000 else (0,))]
            else:
                lines.append(line(1 if n <= 700 else 0))
                if n <= 60:
                    lines.append(line(2))
                if n <= 200:
                    lines.append(line(0))
        plans.append((exe, opts, lines))
    events, where = gfcommon.record(ctx, plans)
    ctx.log("%d calls recorded, %d components" % (len(events), sum(len(e["out"]) for e in events)))
    gfcommon.validate(ctx, events, where)
    ctx.info["classes"] = len({(w[0], tuple(e["l"])) for e, w in zip(events, where)})
    ctx.info["components"] = sum(len(e["out"]) for e in events)
    e = min(events, key=lambda e: len(str(e)))
    ctx.sample({"recorded": e, "from": "generator options"})
    ctx.assumptions += [
        "arithmetic interpreted in GF(46327): an identity that fails is missed with probability about degree/46327 per component",
        "scalar lane; exp and the Boys function replaced by fixed field functions (their values are P11)"]
