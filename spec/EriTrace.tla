------------------------------ MODULE EriTrace ------------------------------
(* Recorded calls of the library over GF(p): inputs (shells), witnesses and  *)
(* all output components.                                                    *)
EXTENDS Eri, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]

Prim(w) == [c |-> e.c, w |-> w,
            e |-> <<e.a[1][w.i[1]], e.a[2][w.i[2]], e.a[3][w.i[3]], e.a[4][w.i[4]]>>,
            k |-> Mul(Mul(e.k[1][w.i[1]], e.k[2][w.i[2]]), Mul(e.k[3][w.i[3]], e.k[4][w.i[4]]))]

\* the witnesses name every primitive quartet of the four shells exactly once
AllPrims == LET n(x) == Len(e.a[x])
            IN /\ { e.wit[x].i : x \in 1..Len(e.wit) }
                    = { <<i, j, k, m>> : i \in 1..n(1), j \in 1..n(2), k \in 1..n(3), m \in 1..n(4) }
               /\ Len(e.wit) = n(1) * n(2) * n(3) * n(4)

Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ e.ev = "eri" /\ e.ret = 1 /\ e.over = 0
        /\ Assert(AllPrims, "witnesses")
        /\ LET ps == [x \in 1..Len(e.wit) |-> Prim(e.wit[x])]
               tot == e.l[1] + e.l[2] + e.l[3] + e.l[4] + e.der
           IN /\ Assert(\A x \in 1..Len(ps) : PairOK(ps[x]) /\ WeightsOK(ps[x], tot), "witness values")
              /\ LET prs == TLCEval([x \in 1..Len(ps) |-> Prepared(ps[x], e.l, e.der)])
                 IN EriOK(prs, e.l, e.der, e.out)

TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
