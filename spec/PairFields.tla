----------------------------- MODULE PairFields -----------------------------
(* What one primitive combination stores, from the Gaussian product theorem, *)
(* over GF(p). Trace of shell pairs: inputs, inverses (checked), fields.     *)
EXTENDS GFp, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]

Diff2(u, v) == (Mul(Sub(u[1], v[1]), Sub(u[1], v[1])) + Mul(Sub(u[2], v[2]), Sub(u[2], v[2]))
                + Mul(Sub(u[3], v[3]), Sub(u[3], v[3]))) % PP
\* the combination (i, j); off = the pair is a shell with itself and stands for (i,j) and (j,i)
Slot(i, j, off) ==
    LET ip == e.ip[i][j]
        p == Add(e.a[i], e.b[j])
        P == [d \in 1..3 |-> Mul(Add(Mul(e.a[i], e.ca[d]), Mul(e.b[j], e.cb[d])), ip)]
        k == Mul(Mul(Mul(e.ka[i], e.kb[j]), ExpF(Neg(Mul(Diff2(e.ca, e.cb), Mul(Mul(e.a[i], e.b[j]), ip))))), Mul(PairK, ip))
    IN <<p, IF off THEN Add(k, k) ELSE k, P[1], P[2], P[3],
         Sub(P[1], e.ca[1]), Sub(P[2], e.ca[2]), Sub(P[3], e.ca[3]),
         Sub(P[1], e.cb[1]), Sub(P[2], e.cb[2]), Sub(P[3], e.cb[3]),
         IF off THEN p ELSE Add(e.a[i], e.a[i]), IF off THEN p ELSE Add(e.b[j], e.b[j])>>
Combos == IF e.same = 1 THEN { <<i, j>> \in (1..e.n[1]) \X (1..e.n[1]) : j <= i } ELSE (1..e.n[1]) \X (1..e.n[2])
\* each combination is stored exactly once, in any order
PairOK == LET want == TLCEval([c \in Combos |-> Slot(c[1], c[2], e.same = 1 /\ c[1] # c[2])])
          IN /\ e.nprim = Cardinality(Combos) /\ Len(e.slots) = e.nprim
             /\ \A c \in Combos : Cardinality({ k \in 1..Len(e.slots) : e.slots[k] = want[c] })
                                   = Cardinality({ d \in Combos : want[d] = want[c] })
             /\ e.ab = <<Sub(e.ca[1], e.cb[1]), Sub(e.ca[2], e.cb[2]), Sub(e.ca[3], e.cb[3])>>
Step == /\ l <= Len(Trace) /\ l' = l + 1 /\ e.ev = "pair"
        /\ Assert(\A i \in 1..e.n[1], j \in 1..e.n[2] : IsInv(Add(e.a[i], e.b[j]), e.ip[i][j]), "witness")
        /\ PairOK
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
