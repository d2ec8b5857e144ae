------------------------------ MODULE Kernels ------------------------------
(* The recurrence steps and their index tables. A step that builds class l   *)
(* at auxiliary orders 0..n-1 from lower classes gives the integrals of that *)
(* class:  out(n, a,b,c,d) = sum over nodes t of w_t t^n X(t) Y(t) Z(t),     *)
(* where X, Y, Z are the two-dimensional integrals (Eri) of the parameters.  *)
(* Any functional t^k |-> moments is allowed, so the weights are free.       *)
EXTENDS Eri, FiniteSets

Node == <<1, 2, 3>>
DimTable(p, l, dim, t) ==
    LET C00 == Add(p.PA[dim], Mul(t, p.apq[dim]))
        D00 == Add(p.QC[dim], Mul(t, p.cpq[dim]))
        B10 == Mul(p.h2p, Add(1, Mul(t, p.aop)))
        B01 == Mul(p.h2q, Add(1, Mul(t, p.aoq)))
        B00 == Mul(p.h2pq, t)
    IN Table4(l[1], l[2], l[3], l[4], Table2(l[1] + l[2], l[3] + l[4], C00, B10, D00, B01, B00), p.AB[dim], p.CD[dim])

StepOK(p, l, num, out) ==
    LET T == TLCEval([dim \in 1..3 |-> [t \in 1..3 |-> DimTable(p, l, dim, Node[t])]])
        ca == Cart(l[1])  cb == Cart(l[2])  cc == Cart(l[3])  cd == Cart(l[4])
        na == Len(ca) nb == Len(cb) nc == Len(cc) nd == Len(cd)
        At(dim, t, i, j, k, m) == T[dim][t][m[dim] + 1][k[dim] + 1][j[dim] + 1][i[dim] + 1]
        Prod(t, i, j, k, m) == Mul(p.w[t], Mul(At(1, t, i, j, k, m), Mul(At(2, t, i, j, k, m), At(3, t, i, j, k, m))))
    IN /\ Len(out) = num * na * nb * nc * nd
       /\ \A i \in 1..na, j \in 1..nb, k \in 1..nc, m \in 1..nd :
            LET x == TLCEval([t \in 1..3 |-> Prod(t, ca[i], cb[j], cc[k], cd[m])])
            IN \A n \in 0..(num - 1) :
                 out[n * na * nb * nc * nd + (((i - 1) * nb + (j - 1)) * nc + (k - 1)) * nd + m]
                   = SumSeq([t \in 1..3 |-> Mul(Pow(Node[t], n), x[t])], 3)

\* ---- index tables
Unit(d) == [x \in 1..3 |-> IF x = d THEN 1 ELSE 0]
Plus(e, d, s) == [e EXCEPT ![d] = @ + s]
\* 0-based position in Cart(l), -1 if there is none
Position(e) == IF \E x \in 1..3 : e[x] < 0 THEN -1
               ELSE LET r == e[2] + e[3] IN (r * (r + 1)) \div 2 + e[3]
TableOK(am, start, entries) ==
    /\ start = (am * (am + 1) * (am + 2)) \div 6
    /\ Len(entries) = NCart(am)
    /\ \A i \in 1..NCart(am) :
         LET r == entries[i] IN
         /\ r.e = Cart(am)[i]
         /\ am > 0 => r.d \in 0..2 /\ r.e[r.d + 1] > 0
         /\ \A d \in 1..3 : /\ r.x[d][1] = Position(Plus(r.e, d, -1))
                            /\ r.x[d][2] = Position(Plus(r.e, d, -2))
                            /\ r.x[d][3] = Position(Plus(r.e, d, 1))
\* Position really is the index in the lexicographic list
ASSUME \A l \in 0..7 : \A i \in 1..NCart(l) : Position(Cart(l)[i]) = i - 1
=============================================================================
