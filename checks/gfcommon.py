"""Integrals recorded from the library interpreted over GF(p), validated by EriTrace."""
import json
from vt import core, build
from vt.build import run_harness


def ncomp(am, der=0):
    n = 12 if der else 1
    for l in am:
        n *= (l + 1) * (l + 2) // 2
    return n


def record(ctx, plans):
    """plans: list of (exe, label, lines). Returns events, where."""
    jobs = []
    for exe, label, lines in plans:
        lines = sorted(lines, key=lambda x: -ncomp([int(t) for t in x.split()[1:5]]))
        n = core.NCPU
        for k in range(n):
            if lines[k::n]:
                jobs.append((exe, label, lines[k::n]))

    def go(job):
        exe, label, lines = job
        rc, out, err = run_harness(exe, input="\n".join(lines) + "\n", timeout=600)
        return job, rc, out.splitlines(), err
    events, where = [], []
    for (exe, label, lines), rc, out, err in ctx.parallel(go, jobs):
        for ln, o in zip(lines, out):
            try:
                e = json.loads(o)
            except ValueError:
                break
            events.append(e)
            where.append((label, ln))
        if rc != 0:
            bad = lines[len(out)] if len(out) < len(lines) else "?"
            ctx.violation("%s: the call died (status %d) on class %s" % (label, rc, bad))
    return events, where


def cost(e):
    return (ncomp(e["l"], e["der"]) * (len(e["wit"])) + 40 * len(e["wit"])) * (len(e["wit"][0]["w"]) + 2) + 300


def validate(ctx, events, where, module="EriTrace", describe=None, limit=6):
    """Balanced over parallel TLC runs; a rejected event is confirmed alone and reported."""
    order = sorted(range(len(events)), key=lambda i: -cost(events[i]))
    nb = core.NCPU
    bins = [[] for _ in range(nb)]
    load = [0] * nb
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += cost(events[i])
    # within a bin, files of bounded size
    parts = []
    for bn in bins:
        cur, sz = [], 0
        for i in bn:
            cur.append(i)
            sz += ncomp(events[i]["l"], events[i]["der"])
            if sz > 60000:
                parts.append(cur)
                cur, sz = [], 0
        if cur:
            parts.append(cur)

    def val(part):
        idx, bad, n = part, [], 0
        while idx and len(bad) < limit:
            ok, m, r = ctx.validate(module, [events[i] for i in idx], heap="2g")
            if ok:
                n += len(idx)
                break
            if "witness" in r.out and "Assert" in r.out and "The first argument" in r.out:
                raise core.CheckError("witnesses rejected: %s" % (where[idx[m]],))
            n += m
            ok2, _, _ = ctx.validate(module, [events[idx[m]]], count=False)
            if ok2:
                raise core.CheckError("rejection did not repeat: %s" % (where[idx[m]],))
            bad.append(idx[m])
            idx = idx[m + 1:]
        return bad, n
    for bad, n in ctx.parallel(val, parts):
        ctx.traces += n
        for i in bad:
            e = events[i]
            ctx.rejected += 1
            msg = "%s: class (%s) order %d does not satisfy the specification (input %s)" % (
                where[i][0], " ".join(map(str, e["l"])), e["der"], where[i][1])
            if e["ret"] != 1: msg += " returned %d" % e["ret"]
            if e["over"]: msg += " wrote past the output"
            if any(v < 0 or v > 46326 for v in e["out"]): msg += " result undefined (uninitialised data)"
            ctx.violation(describe(e, where[i]) if describe else msg,
                          detail={"where": where[i], "event": e if len(e["out"]) < 3000 else {k: e[k] for k in e if k != "out"}})
