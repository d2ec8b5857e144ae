------------------------------ MODULE OeiTrace ------------------------------
(* Recorded one-electron calls of the library over GF(p).                    *)
EXTENDS Oei, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Prim(w) == [c |-> e.c, ip |-> w.ip, r |-> w.r, w |-> w.w, e |-> <<e.a[1][w.i[1]], e.a[2][w.i[2]]>>,
            k |-> Mul(e.k[1][w.i[1]], e.k[2][w.i[2]])]
AllPrims == /\ { e.wit[x].i : x \in 1..Len(e.wit) } = { <<i, j>> : i \in 1..Len(e.a[1]), j \in 1..Len(e.a[2]) }
            /\ Len(e.wit) = Len(e.a[1]) * Len(e.a[2])
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ e.ev = "oei" /\ e.ret = 1 /\ e.over = 0
        /\ Assert(AllPrims, "witnesses")
        /\ LET ps == TLCEval([x \in 1..Len(e.wit) |-> Prim(e.wit[x])])
           IN /\ Assert(\A x \in 1..Len(ps) : /\ OeiPairOK(ps[x])
                                              /\ \A c \in 1..Len(e.z) : OeiWeightsOK(ps[x], ps[x].w[c], <<e.z[c][2], e.z[c][3], e.z[c][4]>>, e.l[1] + e.l[2]),
                        "witness values")
              /\ OeiOK(ps, e.kind, e.l, e.z, e.out)
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
