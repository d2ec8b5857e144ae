--------------------------- MODULE ReentrantTrace ---------------------------
EXTENDS Reentrant, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "alone" -> Alone(e.c, e.v)
             [] e.ev = "start" -> Start(e.t, e.c)
             [] e.ev = "end"   -> End(e.t, e.c, e.v, e.hidden, e.inputs)
             [] e.ev = "join"  -> Quiesce(e.races)
Init == l = 1 /\ ready = TRUE /\ res = <<>> /\ running = <<>>
TraceSpec == Init /\ [][Step]_<<l, rvars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
