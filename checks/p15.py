"""P15: shell objects - create, copy, normalise and reuse are faithful."""
import itertools, json, os, random
from vt import core, build
from vt.build import run_harness
from vt.core import sh
from checks import gfcommon


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    # the library with the address sanitizer; a plain build as well, so that the sanitizer's allocator is not all we see
    lib = b.lib("-l 1 -p 1 -d 1", "scalar", cflags="-fsanitize=address -g")
    plain = b.lib("-l 1 -p 1 -d 1", "sse")
    exes = [("asan", b.compile("shells.c", lib=lib, flags=["-fsanitize=address"], link=["-lquadmath", "-lm"])),
            ("plain", b.compile("shells.c", lib=plain, link=["-lquadmath", "-lm"]))]
    hists = []
    cfg = "SPECIFICATION Spec\nCONSTANTS N=%d Prims={%s} Depth=%d\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n"
    for n, pr, depth, num in ((3, "1,2,5", 8, 150), (4, "1,3,4,11", 20, 60), (2, "1,2", 6, 100)):
        r = ctx.model_check("ShellsGen", cfg % (n, pr, depth), simulate=num * (12 if deep else 1), depth=depth + 1, count=False)
        hs = r.prints("HIST")
        rnd.shuffle(hs)
        hists += [(n, h) for h in hs[:num * (10 if deep else 1)]]
    r = ctx.model_check("ShellsGen", cfg % (2, "1,2", 3))          # all histories of three steps
    hists += [(2, h) for h in r.prints("HIST")]
    ctx.log("%d histories" % len(hists))
    scripts = []
    for k in range(8):
        lines = []
        for i, (n, h) in enumerate(hists[k::8]):
            lines += ["S %d" % rnd.randrange(10 ** 12), "R %d 0" % n] + ["%s %d %d" % (o["op"], o["i"], o["n"]) for o in h]
        scripts.append("\n".join(lines) + "\n")

    def rec(j):
        (name, exe), text = j
        return name, text, run_harness(exe, input=text, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0"})
    traces = []
    for name, text, (rc, out, err) in ctx.parallel(rec, itertools.product(exes, scripts)):
        tok = {}
        evs = []

        def walk(x):
            if isinstance(x, str) and len(x) == 16:
                return tok.setdefault(x, len(tok))
            if isinstance(x, list):
                return [walk(y) for y in x]
            if isinstance(x, dict):
                return {k: walk(v) for k, v in x.items()}
            return x
        for line in out.splitlines():
            try:
                evs.append(walk(json.loads(line)))
            except ValueError:
                break
        if rc != 0:
            last = [l for l in text.splitlines() if not l.startswith("S ")][max(0, len(evs) - 6):len(evs) + 1]
            ctx.violation("%s: the history ending in %s ended with status %d: %s" % (name, last, rc, " ".join(err.split())[:300]),
                          detail={"ops": last, "stderr": err[-3000:]})
        traces.append((name, text, evs))

    def val(t):
        name, text, evs = t
        bad = []
        while evs and len(bad) < 5:
            ok, m, r = ctx.validate("ShellsTrace", evs)
            if ok:
                break
            start = max(k for k in range(m + 1) if evs[k]["ev"] == "reset")
            bad.append((name, [{k: v for k, v in e.items() if k != "dump"} for e in evs[start:m + 1]], evs[m]))
            nxt = next((k for k in range(m + 1, len(evs)) if evs[k]["ev"] == "reset"), None)
            evs = evs[nxt:] if nxt is not None else []
        return bad
    for t, bad in zip(traces, ctx.parallel(val, traces)):
        ctx.traces += sum(e["ev"] == "reset" for e in t[2]) - len(bad)
        for name, h, e in bad:
            ctx.rejected += 1
            ops = [(x["ev"], x.get("i"), x.get("n", x.get("am"))) for x in h]
            ctx.violation("%s: after the history %s the shells are not what they should be%s" % (
                name, ops[-8:], " (normalisation error in ulps: %s)" % e["res"] if e["ev"] == "norm" else ""), detail={"history": h, "event": e})
    ctx.info["histories"] = len(hists)
    ctx.info["max_ulp"] = max([r for t in traces for e in t[2] if e["ev"] == "norm" for r in e["res"]] or [0])
    ctx.sample({"history": hists[0][1][:6]})
    # the dummy shell in integrals, exactly
    exe = build.gf_build(b, "-l 2 -p 2 -d 0", ["gf_eri.cpp"], jobs=8)["gf_eri.cpp"]
    lines = []
    for am in itertools.product(range(3), repeat=4):
        if 0 in am and gfcommon.ncomp(am) <= 240:
            lines.append("0 %d %d %d %d 3 %d" % (am + (rnd.randrange(10 ** 9),)))
    events, where = gfcommon.record(ctx, [(exe, "-l 2 -p 2 -d 0", lines)])
    gfcommon.validate(ctx, events, where)
    ctx.info["dummy_shell_calls"] = len(events)
    ctx.assumptions += ["reference values of the normalisation in 113-bit arithmetic", "dummy shell: arithmetic over GF(46327)"]
