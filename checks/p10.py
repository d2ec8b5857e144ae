"""P10: dispatch reaches the routine of exactly the requested class."""
import glob, itertools, json, os, random, re, shutil
from vt import core, build
from vt.build import run_harness
from vt.core import sh


def make(ctx, b, tree, am, der):
    """The library without its integral routines, for the given limits, linked with stubs. (exe, log)"""
    d = ctx.dir()
    gen = os.path.join(d, "simint", "ostei", "gen")
    os.makedirs(gen)
    os.makedirs(os.path.join(d, "stage", "simint", "vectorization")); os.makedirs(os.path.join(d, "stage", "simint", "ostei"))
    open(os.path.join(d, "stage", "simint", "vectorization", "vector_config.h"), "w").write("#pragma once\n#define SIMINT_SCALAR\n")
    s = open(os.path.join(tree, "simint", "ostei", "ostei_config.h.in")).read()
    open(os.path.join(d, "stage", "simint", "ostei", "ostei_config.h"), "w").write(
        s.replace("@SIMINT_MAXAM@", str(am)).replace("@SIMINT_MAXDER@", str(der)))
    # the generated headers of a tree with these limits: prototypes as the generator writes them (P09)
    head = '#pragma once\n#include "simint/ostei/ostei.h"\n#include "simint/ostei/ostei_general.h"\n#ifdef __cplusplus\nextern "C" {\n#endif\n'
    stubs = []
    for o, fn in ((0, "ostei_generated.h"), (1, "ostei_deriv1_generated.h")):
        with open(os.path.join(gen, fn), "w") as f:
            f.write(head)
            for q in itertools.product(range(am + 1), repeat=4) if o <= der else ():
                n = ("ostei_", "ostei_deriv1_")[o] + build.class_name(q)
                stubs.append(n)
                f.write("int %s(struct simint_multi_shellpair const P, struct simint_multi_shellpair const Q, double screen_tol, "
                        "double * const restrict work, double * const restrict ints);\n" % n)
            f.write("#ifdef __cplusplus\n}\n#endif\n")
    for fn in ("vrr_generated.h", "hrr_generated.h"):
        open(os.path.join(gen, fn), "w").write('#pragma once\n#include "simint/vectorization/vectorization.h"\n')
    open(os.path.join(d, "stub_list.h"), "w").write("".join("STUB(%s)\n" % n for n in stubs))
    srcs = sorted(f for f in glob.glob(os.path.join(tree, "simint", "**", "*.c"), recursive=True) if "/gen/" not in f)
    inc = ["-I" + d, "-I" + os.path.join(d, "stage"), "-I" + tree]
    lines = ["rule cc", "  command = gcc -std=gnu11 -O0 -w %s -c $in -o $out" % " ".join(inc),
             "rule ar", "  command = ar rcs $out $in",
             "rule link", "  command = gcc $in -lm -o $out"]
    objs = []
    for i, f in enumerate(srcs + [os.path.join(core.HARNESS, "dispatch.c")]):
        lines.append("build o%d.o: cc %s" % (i, f))
        objs.append("o%d.o" % i)
    lines.append("build base.a: ar " + " ".join(objs[:-1]))
    lines.append("build dispatch: link %s base.a" % objs[-1])
    open(os.path.join(d, "build.ninja"), "w").write("\n".join(lines) + "\n")
    p = sh(["ninja", "-j", "4", "-C", d], check=False)
    if p.returncode:
        un = sorted(set(re.findall(r"undefined reference to [`'](ostei_[^`']+)'", p.stdout)))
        if un:
            return None, " ".join(un[:10])
        raise core.BuildBroken("dispatch harness: " + p.stdout[-3000:])
    return os.path.join(d, "dispatch"), ""


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    tree = b.tree("-l 0 -p 0 -d 1")
    # histories from the specification
    depth = 9 if deep else 7
    r = ctx.model_check("DispatchGen", "SPECIFICATION Spec\nCONSTANT Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % depth)
    hists = [h for h in r.prints("HIST")]
    ctx.log("%d histories" % len(hists))
    # the highest limit the dispatch tables are written for, and all lower ones
    confs = [(am, der) for am in range(8) for der in (0, 1)]
    built = ctx.parallel(lambda c: make(ctx, b, tree, *c), confs, 3)
    jobs = []
    for (am, der), (exe, log) in zip(confs, built):
        if exe is None:
            ctx.violation("dispatch for angular momentum up to %d, order up to %d refers to routines such a library does not have: %s" % (am, der, log))
            continue
        seed = lambda: rnd.randrange(10 ** 12)
        for k, h in enumerate((["I", "C"], ["I", "I", "C"], ["I", "F", "I", "C", "F"])[: 3 if am < 7 or deep else 2]):
            jobs.append((am, der, exe, " ".join(x if x != "C" else "C %d 0" % seed() for x in h)))
        for h in rnd.sample(hists, min(len(hists), 12)) if not deep else hists:
            jobs.append((am, der, exe, " ".join(x if x != "C" else "C %d %d" % (seed(), rnd.choice((5, 30))) for x in h)))
    ctx.log("%d libraries, %d histories to run" % (len(confs), len(jobs)))

    def rec(j):
        am, der, exe, script = j
        rc, out, err = run_harness(exe, input=script)
        evs = []
        for line in out.splitlines():
            try:
                evs.append(json.loads(line))
            except ValueError:
                break
        return rc, evs, err
    res = ctx.parallel(rec, jobs)
    groups = [[] for _ in range(core.NCPU)]
    for j, (rc, evs, err) in zip(jobs, res):
        if rc != 0:
            ctx.violation("library for angular momentum up to %d, order %d: history \"%s\" ended with status %d %s" % (j[0], j[1], j[3][:120], rc, err[-200:]))
            continue
        groups[len(j[3]) % len(groups)].append((j, evs))
    ncalls = sum(len(e["calls"]) for g in groups for j, evs in g for e in evs if e["ev"] == "C")

    def val(g):
        bad = []
        n = 0
        while g and len(bad) < 6:
            flat = [e for j, evs in g for e in [{"ev": "F"}] + evs]
            ok, m, r = ctx.validate("DispatchTrace", flat)
            if ok:
                return bad, n + len(g)
            k = 0
            for idx, (j, evs) in enumerate(g):
                if m < k + 1 + len(evs):
                    break
                k += 1 + len(evs)
            n += idx
            bad.append((g[idx][0], g[idx][1], r.prints("BADCALL")[:1], r))
            g = g[idx + 1:]
        return bad, n
    for bad, n in ctx.parallel(val, groups):
        ctx.traces += n
        for j, evs, calls, r in bad:
            ctx.rejected += 1
            ctx.violation("library for angular momentum up to %d, order up to %d, history \"%s\": %s" % (j[0], j[1], j[3][:80], json.dumps(calls)[:400]),
                          detail={"history": j[3], "tlc": r.out[-1500:] if not calls else ""})
    ctx.info["calls"] = ncalls
    ctx.info["limits"] = ["l=%d d=%d" % c for c in confs]
    for j, (rc, evs, err) in list(zip(jobs, res))[:3]:
        ctx.sample({"limits": j[:2], "history": j[3], "first call": next((e["calls"][0] for e in evs if e["ev"] == "C"), None)})
    ctx.assumptions += ["integral routines replaced by recording stubs; that the real routines have those names is P09, that they compute the class is P01/P02"]
