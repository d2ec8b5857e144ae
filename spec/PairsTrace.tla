----------------------------- MODULE PairsTrace -----------------------------
EXTENDS Pairs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Same == UNCHANGED vars
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE e.ev = "shells"  -> SetShells(e.s, e.L, e.NS)
             [] e.ev = "reset"   -> Reset
             [] e.ev = "build"   -> Build(e.id, e.pairs, e.m)
             [] e.ev = "product" -> Build(e.id, Product(e.A, e.B), e.m)
             [] e.ev = "cat"     -> Cat(e.id, e.in, e.m)
             [] e.ev = "free"    -> Free(e.id)
             [] e.ev = "dump"    -> DumpOK(e.id, e) /\ Same
             [] e.ev = "use"     -> UseOK(e) /\ Same
TraceInit == l = 1 /\ shells = <<>> /\ lanes = <<>> /\ objs = <<>>
TraceSpec == TraceInit /\ [][Step]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
