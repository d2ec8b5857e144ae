---------------------------- MODULE NumericTrace ----------------------------
EXTENDS Numeric, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OK(e) == CASE e.ev = "boys" -> BoysOK(e.n, e.cat, e.res, e.over)
           [] e.ev = "eri"  -> EriOK(e.l, e.der, e.n, e.res)
           [] e.ev = "oei"  -> OeiOK(e.l, e.n, e.res)
Init == l = 1
Step == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
