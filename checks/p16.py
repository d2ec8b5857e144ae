"""P16: computation is reentrant after initialisation."""
import json, os, random, re
from vt import core, build
from vt.build import run_harness


def events(out):
    evs = []
    for line in out.splitlines():
        try:
            evs.append(json.loads(line))
        except ValueError:
            break
    return evs


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    # all interleavings of the memory accesses of calls; and, so that the check is not vacuous, the broken design
    cfg = "SPECIFICATION Spec\nCONSTANTS Threads={%s} Scratch=\"%s\"\nCONSTANT Calls <- MCCalls\nINVARIANT AsAlone\nPROPERTY ReadOnly\n"
    ctx.model_check("ReentrantMC", cfg % ('"t1","t2"' if not deep else '"t1","t2","t3"', "own"))
    r = ctx.tlc("ReentrantMC", cfg % ('"t1","t2"', "shared"))
    if r.ok or "AsAlone" not in r.out:
        raise core.CheckError("the model does not tell shared scratch space from own: " + r.out[-500:])
    sets = [("-l 2 -p 2 -d 1", 2, "avx2"), ("-l 1 -p 1 -ve 1 -he 1 -vg 2 -hg 2 -d 1", 1, "sse")]
    if deep:
        sets = [("-l 2 -p 1 -d 1", 2, "avx2"), ("-l 2 -p 2 -ve 1 -he 1 -vg 2 -hg 2 -d 1", 2, "sse"), ("-l 3 -p 3 -d 0", 3, "avx"), ("-l 2 -p 2 -d 1", 2, "scalar")]
    isas = build.cpu_isas()
    tsets = [("-l 1 -p 1 -d 1", 1, "sse"), ("-l 2 -p 2 -ve 1 -he 1 -vg 2 -hg 2 -d 0", 2, "sse")]
    if deep:
        tsets = [("-l 2 -p 2 -d 1", 2, "sse"), ("-l 2 -p 1 -ve 1 -he 1 -vg 2 -hg 2 -d 1", 2, "sse"), ("-l 3 -p 3 -d 0", 3, "sse")]
    jobs = []
    for opts, l, isa in sets:
        isa = isa if isa in isas else "sse"
        lib = b.lib(opts, isa, shared=True)
        exe = b.compile("reent.c", lib=lib, flags=["-pthread"], link=["-lmvec", "-ldl", "-lm"])
        jobs.append(("%s %s" % (opts, isa), exe, l, False))
    for opts, l, isa in tsets:
        lib = b.lib(opts, isa, copt="-O1 -g1", cflags="-fsanitize=thread")
        exe = b.compile("reent.c", lib=lib, flags=["-pthread", "-fsanitize=thread"], link=["-lmvec", "-ldl", "-lm"])
        jobs.append(("%s %s, race detector" % (opts, isa), exe, l, True))
    ncall = nraced = 0

    def rec(j):
        """[(what, events)] of one library; the calls alone come first in every trace."""
        name, exe, l, tsan = j
        env = {"LD_BIND_NOW": "1", "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:report_thread_leaks=0:die_after_fork=0"}
        if tsan:
            rc, out, err = run_harness(exe, ["par", 1, l, 1, 1], env=env, timeout=600)
            if rc != 0 and "ThreadSanitizer" in err and "FATAL" in err:
                return name, [], [], "the race detector does not run here"
        rc, out, err = run_harness(exe, ["alone", 1, l, 1, 1], env=env, timeout=600)
        al = events(out)
        if rc != 0:
            return name, [], [(name, "a call alone ended with status %d: %s" % (rc, " ".join(err.split())[-300:]))], ""
        res, bad = [], []
        runs = [("seq", 1, 2 if not deep else 6)] if not tsan else []
        runs += [("par", n, (1 if tsan else 3) * (3 if deep else 1)) for n in ((4,) if tsan else (2, 8))]
        for mode, nth, rounds in runs:
            rc, out, err = run_harness(exe, [mode, rnd.randrange(10 ** 9), l, nth, rounds], env=env, timeout=800)
            if rc != 0:
                bad.append((name, "%s with %d threads ended with status %d: %s" % (mode, nth, rc, " ".join(err.split())[-300:])))
                continue
            races = re.findall(r"WARNING: ThreadSanitizer: (.*?)\n(.*?)\n(.*?)\n", err)
            where = re.findall(r"SUMMARY: ThreadSanitizer: (.*)", err)
            res.append(("%s, %s, %d thread(s)" % (name, mode, nth), al + events(out) + [{"ev": "join", "races": len(where)}], sorted(set(where))[:5]))
        return name, res, bad, ""
    skipped = []
    traces = []
    for name, res, bad, skip in ctx.parallel(rec, jobs, 2):
        if skip:
            skipped.append("%s: %s" % (name, skip))
        for n, what in bad:
            ctx.violation("%s: %s" % (n, what))
        traces += res
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t[1]) for t in traces)))

    def val(t):
        return t, ctx.validate("ReentrantTrace", t[1])
    for (name, evs, where), (ok, m, r) in ctx.parallel(val, traces):
        ncall += sum(e["ev"] == "end" for e in evs)
        if ok:
            ctx.traces += 1
            continue
        ctx.rejected += 1
        e = evs[m]
        if e["ev"] == "join":
            what = "unordered conflicting accesses: %s" % where
        elif e["ev"] == "end" and e["hidden"]:
            what = "call %d writes data of the library (%s)" % (e["c"], e.get("at"))
        elif e["ev"] == "end" and e["inputs"]:
            what = "a call changes its inputs"
        else:
            what = "call %d does not return what it returns alone" % e.get("c", 0)
        ctx.violation("%s: %s" % (name, what), detail={"event": e, "races": where})
    ctx.info.update(calls=ncall, traces=[t[0] for t in traces], not_run=skipped)
    ctx.sample({"trace": traces[0][0] if traces else "", "events": traces[0][1][-6:] if traces else []})
    ctx.assumptions += ["race detection: ThreadSanitizer's happens-before order on the executed accesses; the calls share inputs and use own work space and output"]
