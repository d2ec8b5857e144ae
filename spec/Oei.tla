-------------------------------- MODULE Oei --------------------------------
(* Overlap, kinetic-energy and nuclear-attraction integrals over contracted  *)
(* Cartesian Gaussians, from their definition, over GF(p) with exp = 1:      *)
(*   overlap     (pi/p)^(3/2) S_x S_y S_z                                    *)
(*   kinetic     -1/2 (d2/dx2 + d2/dy2 + d2/dz2) on the second function      *)
(*   attraction  - sum over charges Z (2 pi / p) Lin(N_x(t) N_y(t) N_z(t)),  *)
(* Lin: t^k |-> F_k, by quadrature with weights of the trace, checked here.  *)
EXTENDS Eri
PiF == 32429                       \* the double nearest to pi, in GF(p)

\* one primitive pair: [e, c, k, ip, r]
OeiPairOK(s) == IsInv(Add(s.e[1], s.e[2]), s.ip) /\ Mul(s.r, s.r) = Mul(PiF, s.ip)
Centre(s) == Gpt(s.e[1], s.c[1], s.e[2], s.c[2], s.ip)
\* T[b+1][a+1] in one direction: the first index in steps of PA - t PC with (1-t)/(2p), the second by the distance
OneDim(s, la, lb, dim, C, t) ==
    LET P == Centre(s)
        C00 == Sub(Sub(P[dim], s.c[1][dim]), Mul(t, Sub(P[dim], C[dim])))
        B10 == Mul(Mul(Half, s.ip), Sub(1, t))
    IN HRow(FirstCol(la + lb, C00, B10), lb, Sub(s.c[1][dim], s.c[2][dim]))

SPre(s) == Mul(s.k, Mul(s.r, Mul(s.r, s.r)))
NPre(s) == Mul(s.k, Mul(2, Mul(PiF, s.ip)))

\* second derivative along one direction of the table of the second function
KinDim(s, T, i, n) ==
    LET b == s.e[2]
    IN Sub(Mul(Mul(b, 2 * n + 1), T[n + 1][i + 1]),
           Add(Mul(Mul(2, Mul(b, b)), T[n + 3][i + 1]),
               IF n > 1 THEN Mul(Mul(Half, n * (n - 1)), T[n - 1][i + 1]) ELSE 0))

Prod3(a, b, c) == Mul(Mul(a, b), c)
OvlValue(T, i, j) == Prod3(T[1][j[1] + 1][i[1] + 1], T[2][j[2] + 1][i[2] + 1], T[3][j[3] + 1][i[3] + 1])
KinValue(s, T, i, j) ==
    LET S(d) == T[d][j[d] + 1][i[d] + 1]
        K(d) == KinDim(s, T[d], i[d], j[d])
    IN (Prod3(K(1), S(2), S(3)) + Prod3(S(1), K(2), S(3)) + Prod3(S(1), S(2), K(3))) % PP

OeiWeightsOK(s, w, C, n) ==
    /\ Len(w) >= n + 1
    /\ LET T == Mul(Add(s.e[1], s.e[2]), Dist2(Centre(s), C)) IN \A k \in 0..n : MomentFrom(w, k, 1) = BoysF(T, k)

\* what a primitive pair contributes: a table of one-dimensional integrals (for attraction: per charge and node)
OeiPrep(s, kind, l, z) ==
    IF kind < 2
    THEN [pre |-> SPre(s), T |-> TLCEval([d \in 1..3 |-> OneDim(s, l[1], l[2] + (IF kind = 1 THEN 2 ELSE 0), d, <<0, 0, 0>>, 0)])]
    ELSE [pre |-> Neg(NPre(s)),
          T |-> TLCEval([c \in 1..Len(z) |-> [t \in 1..Len(s.w[c]) |-> [d \in 1..3 |->
                    OneDim(s, l[1], l[2], d, <<z[c][2], z[c][3], z[c][4]>>, t - 1)]]])]

RECURSIVE NodeSum(_, _, _, _, _)
NodeSum(T, w, i, j, t) == IF t = 0 THEN 0 ELSE (Mul(w[t], OvlValue(T[t], i, j)) + NodeSum(T, w, i, j, t - 1)) % PP
RECURSIVE ChargeSum(_, _, _, _, _, _)
ChargeSum(T, s, z, i, j, c) ==
    IF c = 0 THEN 0 ELSE (Mul(z[c][1], NodeSum(T[c], s.w[c], i, j, Len(s.w[c]))) + ChargeSum(T, s, z, i, j, c - 1)) % PP

OeiValue(pr, s, kind, z, i, j) ==
    Mul(pr.pre, CASE kind = 0 -> OvlValue(pr.T, i, j)
                  [] kind = 1 -> KinValue(s, pr.T, i, j)
                  [] kind = 2 -> ChargeSum(pr.T, s, z, i, j, Len(z)))

OeiOK(ps, kind, l, z, out) ==
    LET ca == Cart(l[1])  cb == Cart(l[2])
        prs == TLCEval([x \in 1..Len(ps) |-> OeiPrep(ps[x], kind, l, z)])
    IN /\ Len(out) = Len(ca) * Len(cb)
       /\ \A i \in 1..Len(ca), j \in 1..Len(cb) :
             out[(i - 1) * Len(cb) + j] = SumSeq([x \in 1..Len(ps) |-> OeiValue(prs[x], ps[x], kind, z, ca[i], cb[j])], Len(ps))
=============================================================================
