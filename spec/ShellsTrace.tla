---------------------------- MODULE ShellsTrace -----------------------------
EXTENDS Shells, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Range(i, j) == {k \in DOMAIN slots : i <= k /\ k <= j}
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "reset"  -> Reset(e.n)
             [] e.ev = "create" -> Create(e.i, e.am, e.c, e.a, e.k)
             [] e.ev = "dummy"  -> Dummy(e.i, e.zero, e.one)
             [] e.ev = "copy"   -> Copy(e.i, e.n)
             [] e.ev = "free"   -> Free(Range(e.i, e.n))
             [] e.ev = "norm"   -> NormOK(e.res) /\ Normalise(Range(e.i, e.n), [i \in DOMAIN slots |-> e.dump[i].k])
             [] e.ev = "pair"   -> UNCHANGED slots
        /\ DumpOK(slots', e.dump)
TraceInit == l = 1 /\ slots = <<>>
TraceSpec == TraceInit /\ [][Step]_<<l, slots>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
