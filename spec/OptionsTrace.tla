---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS Options, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ e.ev = "eri" /\ Call(e.key, e.ret, e.over, e.out)
TraceInit == l = 1 /\ known = [x \in {} |-> <<>>]
TraceSpec == TraceInit /\ [][Step]_<<l, known>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
