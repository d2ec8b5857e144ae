---------------------------- MODULE BuffersTrace ----------------------------
EXTENDS Buffers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "new"  -> NewBuffers
             [] e.ev = "call" -> Call(e)
             [] e.ev = "size" -> Size(e)
TraceInit == l = 1 /\ Init
TraceSpec == TraceInit /\ [][Step]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
