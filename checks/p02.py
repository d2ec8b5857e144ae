"""P02: first-derivative routines return the true gradient with respect to every centre."""
import itertools, random
from vt import core, build
from checks import gfcommon


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    deep = not ctx.quick
    specs = [("-l 2 -p 2 -d 1", 2, None),
             ("-l 1 -p 1 -ve 20 -vg 20 -he 20 -hg 20 -d 1", 1, None),
             ("-l 2 -p 2 -ve 0 -vg 5 -he 0 -hg 20 -d 1", 2, None)]
    canon = [a for a in itertools.product(range(4), repeat=4) if max(a) == 3 and gfcommon.ncomp(a) <= 700]
    specs.append(("-l 3 -p 3 -d 1", 3, None if deep else rnd.sample(canon, 5)))
    if deep:
        specs.append(("-l 2 -p 0 -d 1", 2, None))
        specs.append(("-l 2 -p 2 -ve 20 -vg 20 -he 20 -hg 20 -d 1", 2, None))
        c4 = [a for a in itertools.product(range(5), repeat=4) if max(a) == 4 and gfcommon.ncomp(a) <= 1500]
        specs.append(("-l 4 -p 4 -d 1", 4, rnd.sample(c4, 12)))
    plans = []
    for opts, lmax, cls in specs:
        exe = build.gf_build(b, opts, ["gf_eri.cpp"], classes=cls)["gf_eri.cpp"]
        ams = list(itertools.product(range(lmax + 1), repeat=4))
        if cls is not None:
            ams = [o for am in cls for o in build.orbit(am)]
            ams = sorted(set(cls) | set(rnd.sample(sorted(set(ams)), min(5, len(set(ams))))))
        lines = []
        for am in ams:
            n = gfcommon.ncomp(am, 1)
            line = lambda mode: "1 %d %d %d %d %d %d" % (tuple(am) + (mode, rnd.randrange(10**9)))
            if deep:
                lines += [line(m) for m in ((0, 1, 2) if n < 12000 else (0, 1) if n < 40000 else (0,))]
            else:
                external = "-ve 0" in opts
                if external and n > 2000 and rnd.random() < 0.6:
                    continue
                lines.append(line(1 if n <= 1000 else 0))
                if n <= 330:
                    lines.append(line(2))
                if n <= 1000 and not external:
                    lines.append(line(0))
        plans.append((exe, opts, lines))
    events, where = gfcommon.record(ctx, plans)
    ctx.log("%d calls recorded, %d components" % (len(events), sum(len(e["out"]) for e in events)))
    gfcommon.validate(ctx, events, where)
    ctx.info["classes"] = len({(w[0], tuple(e["l"])) for e, w in zip(events, where)})
    ctx.info["components"] = sum(len(e["out"]) for e in events)
    e = min(events, key=lambda e: len(str(e)))
    ctx.sample({"recorded": e})
    ctx.assumptions += [
        "arithmetic interpreted in GF(46327): an identity that fails is missed with probability about degree/46327 per component",
        "scalar lane; exp and the Boys function replaced by fixed field functions (their values are P11)",
        "mode 2 events pair a shell with itself: derivatives are still required per centre, off-diagonal primitives included"]
