"""P05: a concatenation behaves as its inputs, in order."""
import random
from vt import core, build
from checks import pairscommon as pc


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    deep = not ctx.quick
    isas = build.cpu_isas()
    asan = "-fsanitize=address -fno-omit-frame-pointer"
    plan = []
    for isa in ("sse", "commonavx512", "avx2", "scalar", "avx"):
        if isa in isas and (deep or isa in ("sse", "commonavx512", "scalar")):
            maxder = 0 if isa == "scalar" else 1
            lib = b.lib("-l 1 -p 1 -d %d" % maxder, isa, cflags=asan)
            plan.append((isa, b.compile("pairs.c", lib=lib, flags=["-fsanitize=address"]), maxder))
    # every history: two or three objects built, one concatenation into a used or fresh object
    lists = [0, 1, 3, 7, 11, 4, 8, 9, 6, 12]
    short = [h for h in pc.gen(ctx, [0, 1], [1, 9, 3, 5, 0, 6, 4], [0, 2], 2, 3) if h[-1]["op"] == "C"]
    long_ = pc.gen(ctx, [0, 1, 2, 3], lists, [0, 1, 2], 3, 7, simulate=150 if not deep else 3000)
    long_ = [h for h in long_ if any(o["op"] == "C" for o in h)]
    ctx.log("%d short, %d long histories with a concatenation" % (len(short), len(long_)))
    hists = {}
    for isa, exe, der in plan:
        hs = (rnd.sample(short, 250) if not deep and len(short) > 250 else list(short)) + long_
        rnd.shuffle(hs)
        hists[isa] = hs
    pc.run_histories(ctx, plan, hists, use=True)
    ctx.info["histories"] = {isa: len(h) for isa, h in hists.items()}
    ctx.sample({"history": long_[0]})
    ctx.assumptions += ["the inputs of a concatenation are of one class, not clipped, and none is the destination",
                        "integrals of the concatenation and of its inputs agree to 1e-11 of the largest"]
