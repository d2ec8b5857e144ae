-------------------------------- MODULE Eri --------------------------------
(* Electron repulsion integrals over contracted Cartesian Gaussians and      *)
(* their first derivatives, defined directly from the four shells, over      *)
(* GF(p). The defining integral of a primitive quartet is                    *)
(*    K_ab K_cd (p+q)^(-1/2) * Lin( I_x(t) I_y(t) I_z(t) )                   *)
(* with the two-dimensional integrals I polynomials in t, and Lin the linear *)
(* functional t^k |-> F_k (the Boys functions). Lin is evaluated by a        *)
(* quadrature with nodes 0,1,2,.. whose weights are part of the trace and    *)
(* checked here.                                                             *)
EXTENDS GFp

\* one-dimensional table G[c+1][a+1] for a in 0..na, c in 0..nc:
\*   G(a+1,c) = C00 G(a,c) + a B10 G(a-1,c) + c B00 G(a,c-1)
\*   G(a,c+1) = D00 G(a,c) + c B01 G(a,c-1) + a B00 G(a-1,c)
FirstCol(na, C00, B10) ==
    FoldLeft(LAMBDA acc, a : Append(acc, (Mul(C00, acc[a]) + (IF a > 1 THEN Mul(Mul(a - 1, B10), acc[a - 1]) ELSE 0)) % PP),
             <<1>>, [a \in 1..na |-> a])
NextCol(na, c, cur, prev, D00, B01, B00) ==
    TLCEval([a \in 1..(na + 1) |->
        (Mul(D00, cur[a]) + (IF c > 0 THEN Mul(Mul(c, B01), prev[a]) ELSE 0)
                          + (IF a > 1 THEN Mul(Mul(a - 1, B00), cur[a - 1]) ELSE 0)) % PP])
Table2(na, nc, C00, B10, D00, B01, B00) ==
    FoldLeft(LAMBDA acc, c : Append(acc, NextCol(na, c - 1, acc[c], IF c > 1 THEN acc[c - 1] ELSE <<>>, D00, B01, B00)),
             <<FirstCol(na, C00, B10)>>, [c \in 1..nc |-> c])

\* from the sequence f[n+1], n in 0..(la+lb) to T[b+1][a+1] = sum_k C(b,k) AB^(b-k) f(a+k)
Shift(row, ab) == TLCEval([a \in 1..(Len(row) - 1) |-> (row[a + 1] + Mul(ab, row[a])) % PP])
HRow(f, lb, ab) == FoldLeft(LAMBDA acc, b : Append(acc, Shift(acc[b], ab)), <<f>>, [b \in 1..lb |-> b])

\* I[d+1][c+1][b+1][a+1] for a <= la+.., b <= lb, c <= lc.., d <= ld
Table4(na, lb, nc, ld, G, AB, CD) ==
    LET bra == TLCEval([c \in 1..(nc + ld + 1) |-> HRow(G[c], lb, AB)])       \* [c][b][a]
        \* combine c -> (c,d): elementwise on the [b][a] tables
        ShiftC(rows) == TLCEval([c \in 1..(Len(rows) - 1) |->
                           [b \in 1..(lb + 1) |-> [a \in 1..Len(bra[1][b]) |->
                                (rows[c + 1][b][a] + Mul(CD, rows[c][b][a])) % PP]]])
    IN FoldLeft(LAMBDA acc, d : Append(acc, ShiftC(acc[d])), <<bra>>, [d \in 1..ld |-> d])

\* ------------------------------------------------------------------ a primitive quartet
\* s = [l, c (centres), e (exponents a,b,c,d), k (product of coefficients), wit], der in 0..1
PairOK(s) ==
    LET p == Add(s.e[1], s.e[2])   q == Add(s.e[3], s.e[4])
    IN /\ IsInv(p, s.w.ip) /\ IsInv(q, s.w.iq) /\ IsInv(Add(p, q), s.w.is)
       /\ Mul(s.w.r, s.w.r) = s.w.is

Dist2(u, v) == (Mul(Sub(u[1], v[1]), Sub(u[1], v[1])) + Mul(Sub(u[2], v[2]), Sub(u[2], v[2]))
                + Mul(Sub(u[3], v[3]), Sub(u[3], v[3]))) % PP
Gpt(e1, A, e2, B, ip) == TLCEval([d \in 1..3 |-> Mul(Add(Mul(e1, A[d]), Mul(e2, B[d])), ip)])

Prefactor(s) ==
    LET kab == Mul(Mul(PairK, s.w.ip), ExpF(Neg(Mul(Dist2(s.c[1], s.c[2]), Mul(Mul(s.e[1], s.e[2]), s.w.ip)))))
        kcd == Mul(Mul(PairK, s.w.iq), ExpF(Neg(Mul(Dist2(s.c[3], s.c[4]), Mul(Mul(s.e[3], s.e[4]), s.w.iq)))))
    IN Mul(Mul(Mul(kab, kcd), s.w.r), s.k)

\* X[d+1][c+1][b+1][a+1][t] for dimension x: values at all nodes; the weights go into dimension 1
TablesAt(s, na, lb, nc, ld, dim, t) ==
    LET p == Add(s.e[1], s.e[2])  q == Add(s.e[3], s.e[4])
        Pp == Gpt(s.e[1], s.c[1], s.e[2], s.c[2], s.w.ip)
        Qp == Gpt(s.e[3], s.c[3], s.e[4], s.c[4], s.w.iq)
        rho == Mul(Mul(p, q), s.w.is)
        PQ == Sub(Pp[dim], Qp[dim])
        C00 == Sub(Sub(Pp[dim], s.c[1][dim]), Mul(Mul(t, Mul(rho, s.w.ip)), PQ))
        D00 == Add(Sub(Qp[dim], s.c[3][dim]), Mul(Mul(t, Mul(rho, s.w.iq)), PQ))
        B10 == Mul(Mul(Half, s.w.ip), Sub(1, Mul(t, Mul(rho, s.w.ip))))
        B01 == Mul(Mul(Half, s.w.iq), Sub(1, Mul(t, Mul(rho, s.w.iq))))
        B00 == Mul(Mul(Half, s.w.is), t)
    IN Table4(na, lb, nc, ld, Table2(na + lb, nc + ld, C00, B10, D00, B01, B00),
              Sub(s.c[1][dim], s.c[2][dim]), Sub(s.c[3][dim], s.c[4][dim]))

BoysArg(s) ==
    LET p == Add(s.e[1], s.e[2])  q == Add(s.e[3], s.e[4])
        Pp == Gpt(s.e[1], s.c[1], s.e[2], s.c[2], s.w.ip)
        Qp == Gpt(s.e[3], s.c[3], s.e[4], s.c[4], s.w.iq)
    IN Mul(Mul(Mul(p, q), s.w.is), Dist2(Pp, Qp))

RECURSIVE MomentFrom(_, _, _)
MomentFrom(w, k, t) == IF t > Len(w) THEN 0
                       ELSE (Mul(w[t], IF k = 0 THEN 1 ELSE Pow(t - 1, k)) + MomentFrom(w, k, t + 1)) % PP
\* the weights represent the functional on all polynomials of degree < Len(w)
WeightsOK(s, n) == /\ Len(s.w.w) >= n + 1
                   /\ LET T == BoysArg(s) IN \A k \in 0..n : MomentFrom(s.w.w, k, 1) = BoysF(T, k)

\* transpose: [dim][d][c][b][a] -> sequence over nodes, first dimension weighted
Tables(s, na, nb, nc, nd) ==
    LET n == Len(s.w.w)
        at == TLCEval([dim \in 1..3 |-> [t \in 1..n |-> TablesAt(s, na, nb, nc, nd, dim, t - 1)]])
        pf == Prefactor(s)
        wt == [t \in 1..n |-> Mul(s.w.w[t], pf)]
    IN TLCEval([dim \in 1..3 |-> [d \in 1..(nd + 1) |-> [c \in 1..(nc + 1) |-> [b \in 1..(nb + 1) |-> [a \in 1..(na + 1) |->
          [t \in 1..n |-> IF dim = 1 THEN Mul(wt[t], at[dim][t][d][c][b][a]) ELSE at[dim][t][d][c][b][a]]]]]]])

RECURSIVE Dot3(_, _, _, _)
Dot3(n, X, Y, Z) == IF n = 0 THEN 0 ELSE (Dot3(n - 1, X, Y, Z) + ((X[n] * Y[n]) % PP) * Z[n]) % PP

\* derivative tables along one dimension: Der[centre][d][c][b][a] for a <= la etc.
\*   d/dA: 2 alpha I(a+1) - a I(a-1)
DerTable(s, Tb, l) ==
    LET n == Len(s.w.w)
        Comb(e, up, k, dn) == [t \in 1..n |-> (Mul(Mul(2, e), up[t]) + (IF k > 0 THEN Mul(k, PP - dn[t]) ELSE 0)) % PP]
    IN TLCEval([ctr \in 1..4 |-> [d \in 1..(l[4] + 1) |-> [c \in 1..(l[3] + 1) |-> [b \in 1..(l[2] + 1) |-> [a \in 1..(l[1] + 1) |->
         CASE ctr = 1 -> Comb(s.e[1], Tb[d][c][b][a + 1], a - 1, IF a > 1 THEN Tb[d][c][b][a - 1] ELSE <<>>)
           [] ctr = 2 -> Comb(s.e[2], Tb[d][c][b + 1][a], b - 1, IF b > 1 THEN Tb[d][c][b - 1][a] ELSE <<>>)
           [] ctr = 3 -> Comb(s.e[3], Tb[d][c + 1][b][a], c - 1, IF c > 1 THEN Tb[d][c - 1][b][a] ELSE <<>>)
           [] ctr = 4 -> Comb(s.e[4], Tb[d + 1][c][b][a], d - 1, IF d > 1 THEN Tb[d - 1][c][b][a] ELSE <<>>)]]]]])

\* what evaluation of components needs for one primitive quartet
Prepared(s, l, der) ==
    LET T == Tables(s, l[1] + der, l[2] + der, l[3] + der, l[4] + der)
    IN [n |-> Len(s.w.w), T |-> T, D |-> IF der = 0 THEN <<>> ELSE TLCEval([dim \in 1..3 |-> DerTable(s, T[dim], l)])]

Pick(tb, i, j, k, m, dim) == tb[m[dim] + 1][k[dim] + 1][j[dim] + 1][i[dim] + 1]

ValueOf(pr, i, j, k, m) ==
    Dot3(pr.n, Pick(pr.T[1], i, j, k, m, 1), Pick(pr.T[2], i, j, k, m, 2), Pick(pr.T[3], i, j, k, m, 3))
DerivOf(pr, i, j, k, m, ctr, dim) ==
    LET F(x) == IF x = dim THEN Pick(pr.D[x][ctr], i, j, k, m, x) ELSE Pick(pr.T[x], i, j, k, m, x)
    IN Dot3(pr.n, F(1), F(2), F(3))

\* contracted: the sum over primitive quartets
SumValue(prs, i, j, k, m) == SumSeq([x \in 1..Len(prs) |-> ValueOf(prs[x], i, j, k, m)], Len(prs))
SumDeriv(prs, i, j, k, m, ctr, dim) == SumSeq([x \in 1..Len(prs) |-> DerivOf(prs[x], i, j, k, m, ctr, dim)], Len(prs))

\* all components, row-major over the four shells
EriOK(prs, l, der, out) ==
    LET ca == Cart(l[1])  cb == Cart(l[2])  cc == Cart(l[3])  cd == Cart(l[4])
        na == Len(ca) nb == Len(cb) nc == Len(cc) nd == Len(cd)
    IN /\ Len(out) = na * nb * nc * nd * (IF der = 1 THEN 12 ELSE 1)
       /\ \A i \in 1..na, j \in 1..nb, k \in 1..nc, m \in 1..nd :
            LET pos == (((i - 1) * nb + (j - 1)) * nc + (k - 1)) * nd + m
            IN IF der = 0
               THEN out[pos] = SumValue(prs, ca[i], cb[j], cc[k], cd[m])
               ELSE \A ctr \in 1..4, dim \in 1..3 :
                      out[(pos - 1) * 12 + (ctr - 1) * 3 + dim] =
                         SumDeriv(prs, ca[i], cb[j], cc[k], cd[m], ctr, dim)
=============================================================================
