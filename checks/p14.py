"""P14: one-electron integrals are the defined ones."""
import itertools, json, random
from vt import core, build
from vt.build import run_harness
from vt.trace import validate_events
from checks import gfcommon
from checks.p11 import feed

KIND = ("overlap", "kinetic energy", "attraction")


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    seed = lambda: rnd.randrange(10 ** 9)
    # ---- exact over GF(p)
    exe = build.gf_build(b, "-l 1 -p 1 -d 0", ["gf_oei.cpp"], classes=[(0, 0, 0, 0)], defs=("-DGF_EXP1",), oei=True)["gf_oei.cpp"]
    top = 7
    lines = []
    for kind in range(3):
        for l in itertools.product(range(top + 1), repeat=2):
            lines.append("%d %d %d %d %d %d" % (kind, l[0], l[1], 0 if sum(l) > 8 and not deep else rnd.choice((0, 1, 2, 3 if l[0] == l[1] else 1)), rnd.randrange(4) if sum(l) <= 8 else 1, seed()))
        for l in itertools.product(range(5 if deep else 3), repeat=2):
            for mode in (0, 1, 2, 3):
                if mode == 3 and l[0] != l[1]:
                    continue
                for nz in ((0, 1, 2, 5) if kind == 2 else (0,)):
                    lines.append("%d %d %d %d %d %d" % (kind, l[0], l[1], mode, nz, seed()))
    for _ in range(40 if deep else 6):       # beyond the two-electron limit
        kind, l1, l2 = rnd.randrange(3), rnd.randrange(8, 12), rnd.randrange(8)
        l = rnd.choice(((l1, l2), (l2, l1)))
        lines.append("%d %d %d 0 %d %d" % (kind, l[0], l[1], rnd.randrange(3), seed()))
    olines = [x for x in rnd.sample(lines, 60 if deep else 30) if sum(int(t) for t in x.split()[1:3]) <= 6]

    def events(lines, args):
        res = []
        for k, (rc, out, err) in enumerate(ctx.parallel(
                lambda k: run_harness(exe, args, input="\n".join(lines[k::core.NCPU]) + "\n"), range(core.NCPU))):
            part = lines[k::core.NCPU]
            got = [json.loads(x) for x in out.splitlines() if x.endswith("}")]
            res += list(zip(got, part))
            if rc != 0:
                x = part[len(got)] if len(got) < len(part) else "?"
                ctx.violation("the %s call ended with status %d on (kind l1 l2 mode charges seed) %s" % (KIND[int(x[0])] if x != "?" else "", rc, x))
        return res

    def describe(e, w):
        bad = sum(v < 0 or v > 46326 for v in e["out"])
        return "%s of shells %s with %d charges is not the defined integral%s%s (input %s)" % (
            KIND[e["kind"]], e["l"], len(e["z"]), ": %d values undefined" % bad if bad else "",
            ", wrote past the output" if e["over"] else "" if e["ret"] == 1 else ", returned %d" % e["ret"], w)

    # the reference of the accuracy part first
    nv = len(ctx.violations)
    oev = events(olines, ["oracle"])
    validate_events(ctx, "OeiTrace", [e for e, _ in oev], [w for _, w in oev], chunk=8, describe=describe)
    if len(ctx.violations) > nv:
        raise core.CheckError("the reference one-electron integrals do not satisfy Oei.tla")
    ev = events(lines, [])
    rnd.shuffle(ev)
    ctx.sample({"recorded": min((e for e, _ in ev), key=lambda e: len(str(e)))} if ev else {})
    validate_events(ctx, "OeiTrace", [e for e, _ in ev], [w for _, w in ev], chunk=24, describe=describe)
    ctx.log("%d calls exact over GF(p), %d of the reference" % (len(ev), len(oev)))

    # ---- accuracy, all instruction sets
    evs, where, worst = [], [], {}
    isas = build.cpu_isas()
    for isa in isas:
        lib = b.lib("-l 1 -p 1 -d 1", isa)
        e = b.compile("numoei.cpp", lib=lib, flags=["-O2"], link=["-lmvec", "-lquadmath", "-lm"])
        lines = []
        pats = list(itertools.product(range(3), range(4), range(4), range(5)))        # kind, exponents, distance: all
        for rep in range(30 if deep else 5):
            for kind, x1, x2, d in pats:
                hi = 4 if rep else 8
                lines.append("%d %d %d %d %d %d %d %d %d" % (kind, rnd.randrange(hi), rnd.randrange(hi), seed(), x1, x2, d,
                                                            rnd.choice((1, 1, 3)), rnd.choice((0, 1, 1, 2, 5)) if kind == 2 else 0))
        for x in feed(ctx, e, lines, "one-electron %s" % isa):
            if x:
                evs.append(x)
                where.append(isa)
                k = "%s %s" % (isa, KIND[x["kind"]])
                worst[k] = max(worst.get(k, 0), x["res"])
    validate_events(ctx, "NumericTrace", evs, where, describe=lambda e, w: "%s: %s of shells %s, exponents %s, distance %s, %d charges: residual %s (2^-53 of the scale), returned %d (seed %s)" % (
        w, KIND[e["kind"]], e["l"], e["x"], e["d"], e["nz"], "not finite" if e["res"] < 0 else e["res"], e["n"], e["seed"]))
    ctx.log("%d calls against 113-bit values; worst %s" % (len(evs), worst))
    ctx.info.update(exact_calls=len(ev), reference_calls=len(oev), accuracy_calls=len(evs), worst_residual=worst)
    ctx.assumptions += ["exact part in GF(46327), scalar lane, with exp = 1 and stand-ins for the Boys functions; exponentials are checked by the accuracy part",
                        "errors are measured against the magnitude of the terms an integral is the sum of"]
