----------------------------- MODULE LanesTrace -----------------------------
EXTENDS Lanes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bin(e) == CASE e.op = "add" -> LaneMap(e.W, Add, e.a, e.b)
            [] e.op = "sub" -> LaneMap(e.W, Sub, e.a, e.b)
            [] e.op = "mul" -> LaneMap(e.W, Mul, e.a, e.b)
OK(e) ==
  CASE e.ev = "bin"   -> e.r = Bin(e)
    [] e.ev = "fma"   -> /\ e.r = [n \in 1..e.W |-> e.a[n] * e.b[n] + e.c[n]]
                         /\ e.s = [n \in 1..e.W |-> e.a[n] * e.b[n] - e.c[n]]
    [] e.ev = "div"   -> \A n \in 1..e.W : e.r[n] * e.b[n] = e.a[n]
    [] e.ev = "sqrt"  -> \A n \in 1..e.W : e.r[n] >= 0 /\ e.r[n] * e.r[n] = e.a[n]
    [] e.ev = "neg"   -> e.r = [n \in 1..e.W |-> 0 - e.a[n]]
    [] e.ev = "set1"  -> e.r = [n \in 1..e.W |-> e.x]
    [] e.ev = "load"  -> e.r = [n \in 1..e.W |-> e.mem[e.at + n]]
    [] e.ev = "mask"  -> e.r = Masked(e.W, e.m, e.mem)
    [] e.ev = "minmax" -> e.min = MinOf(e.a) /\ e.max = MaxOf(e.a)
    [] e.ev = "con"   -> e.after = Contracted(e.W, e.nc, e.off, IF e.scaled THEN Scaled(e.W, e.nc, e.fac, e.src) ELSE e.src, e.dst)
    [] e.ev = "round" -> e.r = [x \in 1..Len(e.r) |-> Round(e.W, x - 1)]
    [] e.ev = "mem"   -> \A k \in 1..Len(e.mis) : e.mis[k] = 0
    [] e.ev = "ulp"   -> \A n \in 1..e.W : e.r[n] \in 0..16          \* exp and pow: within 16 units in the last place
    [] e.ev = "same"  -> SameOK(e.res, e.n, e.n0)
Init == l = 1
Step == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
