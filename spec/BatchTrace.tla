----------------------------- MODULE BatchTrace -----------------------------
(* Recorded calls of the real routines, decoded into contribution counts.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Batch

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]

ToSet(s) == { s[k] : k \in 1..Len(s) }

IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

\* a batched call with the decoded contributions of every quartet
Call == /\ IsEvent("call")
        /\ e.guard = 0 /\ e.undecodable = 0
        /\ CallOK(e.P, e.Q, e.cp, e.cq, e.ret, [n \in 1..Len(e.out) |-> ToSet(e.out[n])])

\* batched values against each quartet computed alone: largest difference in units of 1e-13 of the class scale
Alone == /\ IsEvent("alone")
         /\ e.guard = 0
         /\ e.ret = e.cp * e.cq
         /\ e.quartets = e.cp * e.cq
         /\ e.nan = 0
         /\ e.diff <= 100

Screen == /\ IsEvent("screen")
          /\ e.guard = 0 /\ e.undecodable = 0
          /\ ScreenCallOK(e.P, e.Q, e.cp, e.cq, e.sP, e.sQ, e.tol, e.ret, [n \in 1..Len(e.out) |-> ToSet(e.out[n])])

\* screening values computed by the library: largest deviation from the self-repulsion integrals (units of 1e-10)
Vals == /\ IsEvent("vals")
        /\ e.n = e.expect /\ e.worst <= 10 /\ e.max <= 10 /\ e.shell <= 10

\* a call with built-in screening against the unscreened result
Bound == /\ IsEvent("bound")
         /\ e.ret = -1 \/ (e.ret = Len(e.q) /\ e.nan = 0)
         /\ e.ret = -1 => \A k \in 1..Len(e.q) : e.q[k][3] = 0
         /\ (e.m = 1 /\ e.der = 0) => \A k \in 1..Len(e.q) : BoundOK(e.q[k])
         \* nothing below the tolerance: nothing may change
         /\ \A k \in 1..Len(e.q) : (e.q[k][2] = 0) => e.q[k][1] <= 1

TraceInit == l = 1
TraceNext == Call \/ Alone \/ Screen \/ Vals \/ Bound
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
