----------------------------- MODULE BatchAlgo -----------------------------
(* The vectorised loop nest of the generated routines, step by step:         *)
(* ket pairs are taken in batches of NS, their primitives are stored         *)
(* contiguously (padding to the vector length L at the end of every NS pairs *)
(* and at the end of the list) and consumed L at a time, lanes being added   *)
(* to the quartet their own ket pair belongs to.  Screening skips a bra      *)
(* primitive or a whole vector.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Batch, FiniteSetsExt

CONSTANTS L,          \* vector length
          NS,         \* pairs per batch
          MaxP, MaxQ, \* longest lists
          MaxPrimP, MaxPrimQ,
          ScreenVals, \* screening values, {} = no screening
          Tol,        \* squared tolerance
          Clips,      \* TRUE: all clips, FALSE: no clipping
          Emit        \* TRUE: print every configuration (for replay)

Round(x) == ((x + L - 1) \div L) * L

\* storage: sequence of <<pair, prim>> per slot, <<0,0>> for padding
RECURSIVE LayoutFrom(_, _, _)
LayoutFrom(S, a, sofar) ==
    IF a > Len(S) THEN sofar
    ELSE LET s1 == sofar \o [i \in 1..S[a] |-> <<a, i>>]
             s2 == IF a % NS = 0 \/ a = Len(S)
                   THEN s1 \o [i \in 1..(Round(Len(s1)) - Len(s1)) |-> <<0, 0>>]
                   ELSE s1
         IN LayoutFrom(S, a + 1, s2)
Layout(S) == LayoutFrom(S, 1, <<>>)

VARIABLES P, Q, cp, cq, sP, sQ,      \* input
          pc, ab, istart, iend, jstart, jend, cd, nsb, i, icd, iprim, nprim, ptr, j,
          out,                       \* [quartet -> bag as set of <<i,j,n>>]
          skipped                    \* set of <<slotP, slotQ>> left out by screening
vars == <<P, Q, cp, cq, sP, sQ, pc, ab, istart, iend, jstart, jend, cd, nsb, i, icd, iprim, nprim, ptr, j, out, skipped>>
inputs == <<P, Q, cp, cq, sP, sQ>>

Lists(n, m) == UNION { [1..k -> 1..m] : k \in 1..n }
Screening == ScreenVals # {}
\* screening values of the slots: any for primitives, zero for padding
Screens(S) == IF ~Screening THEN { [k \in 1..Len(Layout(S)) |-> 0] }
              ELSE { f \in [1..Len(Layout(S)) -> ScreenVals] :
                        \A k \in 1..Len(Layout(S)) : Layout(S)[k] = <<0,0>> => f[k] = 0 }
MaxOf(f) == Max({0} \cup {f[k] : k \in DOMAIN f})

\* the values of each pair, without filler
ByPair(S, f) == [a \in 1..Len(S) |-> [k \in 1..S[a] |-> f[CHOOSE n \in 1..Len(Layout(S)) : Layout(S)[n] = <<a, k>>]]]
LP == Layout(P)
LQ == Layout(Q)

Init ==
    /\ P \in Lists(MaxP, MaxPrimP) /\ Q \in Lists(MaxQ, MaxPrimQ)
    /\ cp \in (IF Clips THEN 1..Len(P) ELSE {Len(P)})
    /\ cq \in (IF Clips THEN 1..Len(Q) ELSE {Len(Q)})
    /\ sP \in Screens(P) /\ sQ \in Screens(Q)
    /\ pc = "bra" /\ ab = 0 /\ istart = 0 /\ iend = 0 /\ jstart = 0 /\ jend = 0
    /\ cd = 0 /\ nsb = 0 /\ i = 0 /\ icd = 0 /\ iprim = 0 /\ nprim = 0 /\ ptr = 0 /\ j = 0
    /\ out = [q \in (0..(Len(P)-1)) \X (0..(Len(Q)-1)) |-> {}] /\ skipped = {}
    /\ (Emit => PrintT("CFG " \o ToJson([P |-> P, Q |-> Q, cp |-> cp, cq |-> cq, sP |-> ByPair(P, sP), sQ |-> ByPair(Q, sQ), tol2 |-> Tol])))

\* for(ab = 0; ab < clip; ab++)
Bra ==
    /\ pc = "bra"
    /\ IF ab < cp
       THEN /\ iend' = istart + P[ab + 1]
            /\ cd' = 0 /\ jstart' = 0 /\ pc' = "ketbatch"
       ELSE /\ pc' = "done" /\ UNCHANGED <<iend, cd, jstart>>
    /\ UNCHANGED <<inputs, ab, istart, jend, nsb, i, icd, iprim, nprim, ptr, j, out, skipped>>

SumQ(from, n) == LET f[k \in 0..n] == IF k = 0 THEN 0 ELSE f[k-1] + Q[from + k] IN f[n]

KetBatch ==
    /\ pc = "ketbatch"
    /\ IF cd < cq
       THEN /\ nsb' = (IF cd + NS > cq THEN cq - cd ELSE NS)
            /\ jend' = jstart + SumQ(cd, nsb')
            /\ i' = istart /\ pc' = "prim"
            /\ UNCHANGED <<ab, istart>>
       ELSE /\ istart' = (IF (ab + 1) % NS = 0 THEN Round(iend) ELSE iend)
            /\ ab' = ab + 1 /\ pc' = "bra"
            /\ UNCHANGED <<nsb, jend, i>>
    /\ UNCHANGED <<inputs, iend, jstart, cd, icd, iprim, nprim, ptr, j, out, skipped>>

Prim ==
    /\ pc = "prim"
    /\ IF i >= iend
       THEN /\ jstart' = Round(jend) /\ cd' = cd + NS /\ pc' = "ketbatch"
            /\ UNCHANGED <<i, icd, iprim, nprim, ptr, j, skipped>>
       ELSE IF Screening /\ sP[i + 1] * MaxOf(sQ) < Tol
       THEN /\ i' = i + 1
            /\ skipped' = skipped \cup { <<i + 1, k>> : k \in (jstart + 1)..jend }
            /\ UNCHANGED <<jstart, cd, pc, icd, iprim, nprim, ptr, j>>
       ELSE /\ icd' = 0 /\ iprim' = 0 /\ nprim' = Q[cd + 1] /\ ptr' = 0 /\ j' = jstart
            /\ pc' = "vec"
            /\ UNCHANGED <<i, jstart, cd, skipped>>
    /\ UNCHANGED <<inputs, ab, istart, iend, jend, nsb, out>>

\* offsets of the lanes: [off, icd, iprim, nprim, first] after n lanes
RECURSIVE Lanes(_, _)
Lanes(n, s) ==
    IF n = L THEN s
    ELSE LET new == s.iprim >= s.nprim /\ s.icd + 1 < nsb
             s1 == [s EXCEPT !.icd = IF new THEN @ + 1 ELSE @,
                             !.nprim = IF new THEN @ + Q[cd + s.icd + 2] ELSE @,
                             !.off = Append(@, (IF n = 0 THEN 0 ELSE s.off[n]) + (IF new /\ n > 0 THEN 1 ELSE 0)),
                             !.first = IF n = 0 /\ new THEN 1 ELSE @,
                             !.iprim = @ + 1]
         IN Lanes(n + 1, s1)

Vec ==
    /\ pc = "vec"
    /\ IF j >= jend
       THEN /\ i' = i + 1 /\ pc' = "prim"
            /\ UNCHANGED <<icd, iprim, nprim, ptr, j, out, skipped>>
       ELSE LET s == IF iprim + L >= nprim
                     THEN Lanes(0, [off |-> <<>>, icd |-> icd, iprim |-> iprim, nprim |-> nprim, first |-> 0])
                     ELSE [off |-> [n \in 1..L |-> 0], icd |-> icd, iprim |-> iprim + L, nprim |-> nprim, first |-> 0]
                last == s.off[L]
                nlane == IF j + L < jend THEN L ELSE jend - j
                base == ptr + s.first
                skip == Screening /\ \A n \in 1..L : sP[i + 1] * sQ[j + n] < Tol
                \* lanes that carry a non-zero weight
                real == { n \in 1..nlane : LQ[j + n] # <<0, 0>> /\ LP[i + 1] # <<0, 0>> }
                add(q) == { <<LP[i + 1], LQ[j + n]>> : n \in { m \in real : <<ab, cd + base + s.off[m]>> = q } }
            IN /\ icd' = s.icd /\ iprim' = s.iprim /\ nprim' = s.nprim
               /\ ptr' = base + last
               /\ j' = j + L
               /\ IF skip
                  THEN /\ skipped' = skipped \cup { <<i + 1, j + n>> : n \in 1..L }
                       /\ UNCHANGED out
                  ELSE /\ out' = [q \in DOMAIN out |->
                                    out[q] \cup { <<x[1], x[2], 1 + Cardinality({y \in out[q] : y[1] = x[1] /\ y[2] = x[2]})>> : x \in add(q) }]
                       /\ UNCHANGED skipped
               /\ UNCHANGED <<i, pc>>
    /\ UNCHANGED <<inputs, ab, istart, iend, jstart, jend, cd, nsb>>

Next == Bra \/ KetBatch \/ Prim \/ Vec
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* every load stays inside the padded storage
InStorage == (pc = "vec" /\ j < jend) => (i < Len(LP) /\ j + L <= Len(LQ))

\* only own primitives, each at most once, only computed quartets
NoStray == \A q \in DOMAIN out : \A x \in out[q] :
             /\ q[1] < cp /\ q[2] < cq
             /\ x[1][1] = q[1] + 1 /\ x[2][1] = q[2] + 1 /\ x[3] = 1

\* the abstract result when the call returns
Contribution(a, c) == { <<x[1][2], x[2][2], x[3]>> : x \in out[<<a - 1, c - 1>>] }
Complete == (pc = "done" /\ ~Screening) =>
              CallOK(P, Q, cp, cq, cp * cq,
                     [n \in 1..(cp * cq) |-> Contribution(((n - 1) \div cq) + 1, ((n - 1) % cq) + 1)])

\* screening: left out only if the product is below the tolerance; the others are all there
SlotOf(Lay, a, k) == CHOOSE n \in 1..Len(Lay) : Lay[n] = <<a, k>>
Sound == (pc = "done" /\ Screening) =>
            \A a \in 1..cp, c \in 1..cq : \A x \in Own(P, Q, a, c) :
                LET u == SlotOf(LP, a, x[1])   v == SlotOf(LQ, c, x[2])
                IN sP[u] * sQ[v] >= Tol => <<x[1], x[2], 1>> \in Contribution(a, c)
SkipJustified == \A s \in skipped : sP[s[1]] * sQ[s[2]] < Tol
=============================================================================
