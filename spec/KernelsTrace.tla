---------------------------- MODULE KernelsTrace ----------------------------
EXTENDS Kernels, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "table" -> TableOK(e.am, e.start, e.entries)
             [] e.ev \in {"vrr", "vrr1", "hrr"} -> e.over = 0 /\ e.l[e.c + 1] > 0 /\ StepOK(e.p, e.l, e.n, e.out)
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
