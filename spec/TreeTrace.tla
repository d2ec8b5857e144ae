----------------------------- MODULE TreeTrace ------------------------------
EXTENDS Tree, Json, IOUtils
VARIABLE i
Events == ndJsonDeserialize(IOEnv.TRACE)

Accept(e) == CASE e.ev = "tree"  -> TreeOK(e)
               [] e.ev = "deps"  -> DepsOK(e)
               [] e.ev = "build" -> BuildOK(e)
               [] e.ev = "run"   -> RunOK(e)

TraceSpec == i = 0 /\ [][i < Len(Events) /\ Accept(Events[i + 1]) /\ i' = i + 1]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
