"""Validation of recorded events against trace specifications."""
import json
from . import core


def validate_events(ctx, module, events, where, chunk=None, limit=20, cfg=None, describe=None):
    """Validates independent events; after a rejection goes on with the rest."""
    n = chunk or max(50, -(-len(events) // (core.NCPU * 2)))
    parts = [(events[k:k + n], where[k:k + n]) for k in range(0, len(events), n)]

    def val(part):
        ev, wh = part
        bad = []
        ok_n = 0
        while ev and len(bad) < limit:
            ok, m, r = ctx.validate(module, ev, cfg=cfg)
            if ok:
                ok_n += len(ev)
                break
            ok_n += m
            e1 = ev[m]
            ok2, _, _ = ctx.validate(module, [e1], cfg=cfg, count=False)   # a rejection has to repeat
            if ok2:
                raise core.CheckError("rejection did not repeat: %s" % json.dumps(e1)[:500])
            bad.append((e1, wh[m]))
            ev, wh = ev[m + 1:], wh[m + 1:]
        return bad, ok_n
    for bad, ok_n in ctx.parallel(val, parts):
        ctx.traces += ok_n
        for e, w in bad:
            ctx.rejected += 1
            ctx.violation((describe(e, w) if describe else "rejected by %s: %s %s" % (module, w, json.dumps(e)[:400])),
                          detail={"event": e, "where": w})
