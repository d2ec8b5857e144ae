"""P04: a shell-pair object describes exactly its primitive pairs, whatever its history."""
import json, random
from vt import core, build, trace
from vt.build import run_harness
from checks import pairscommon as pc


def run(ctx):
    rnd = random.Random(ctx.seed)
    b = build.Builder(ctx)
    deep = not ctx.quick
    isas = build.cpu_isas()
    asan = "-fsanitize=address -fno-omit-frame-pointer"
    libs = []
    for isa, maxder in (("sse", 1), ("commonavx512", 0), ("avx2", 1), ("scalar", 0), ("avx", 1)):
        if isa in isas and (deep or isa in ("sse", "commonavx512", "avx2")):
            libs.append((isa, maxder))
    plan = []
    for isa, maxder in libs:
        lib = b.lib("-l 1 -p 1 -d %d" % maxder, isa, cflags=asan)
        plan.append((isa, b.compile("pairs.c", lib=lib, flags=["-fsanitize=address"]), 0))
    # all histories of one object up to a depth, and long random ones
    short = pc.gen(ctx, [0], [0, 1, 2, 3, 5, 12, 13] if not deep else [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 15], [0, 1, 2], 0, 2)
    long_ = pc.gen(ctx, [0, 1], [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 15], [0, 1, 2], 0, 8, simulate=80 if not deep else 1500)
    hists = {}
    for isa, exe, der in plan:
        hs = short + long_
        rnd.shuffle(hs)
        hists[isa] = hs
    ctx.log("%d histories generated" % (len(short) + len(long_)))
    pc.run_histories(ctx, plan, hists)
    ctx.info["histories"] = len(short) + len(long_)
    ctx.info["builds"] = [p[0] for p in plan]
    ctx.sample({"history": long_[0]})
    raw(ctx, b, rnd, deep)
    ctx.assumptions += ["with real doubles stored values are recognised within 1e-12; the formulas are checked exactly over GF(p)",
                        "memory errors are those AddressSanitizer reports"]


def raw(ctx, b, rnd, deep):
    """The stored fields, exactly, over GF(p)."""
    exe = build.gf_build(b, "-l 1 -p 1 -d 1", ["pairraw.cpp"], classes=[(0, 0, 0, 0)])["pairraw.cpp"]
    lines = []
    for na in range(1, 7):
        lines.append("1 %d %d %d" % (na, na, rnd.randrange(10 ** 6)))
        for nb in range(1, 7):
            for _ in range(2 if not deep else 20):
                lines.append("0 %d %d %d" % (na, nb, rnd.randrange(10 ** 6)))
    rc, out, err = run_harness(exe, input="\n".join(lines) + "\n")
    evs = [json.loads(o) for o in out.splitlines()]
    if rc != 0 or len(evs) != len(lines):
        ctx.violation("building a shell pair died (status %d) on %s" % (rc, lines[len(evs)] if len(evs) < len(lines) else "?"))
    trace.validate_events(ctx, "PairFields", evs, lines[:len(evs)], describe=lambda e, w:
                          "fields of a shell pair differ from the Gaussian product (same=%d, %s primitives, input %s)" % (e["same"], e["n"], w))
    ctx.info["field_events"] = len(evs)
