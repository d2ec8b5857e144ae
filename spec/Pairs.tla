------------------------------- MODULE Pairs -------------------------------
(* Shell-pair objects. An object is abstractly the list of the shell pairs   *)
(* it was built from and whether it carries screening values; what its       *)
(* storage holds is a function of that alone: not of what the object held    *)
(* before, nor of how it was put together.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES shells,     \* id -> [n primitives, am, d (whose data), c (centre)]
          lanes,      \* [L vector length, NS pairs per batch]
          objs        \* id -> <<>> or [pairs, m(ethod), ms: methods of its values]

vars == <<shells, lanes, objs>>
Ids == 0..63
SetShells(s, L, NS) == shells' = s /\ lanes' = [L |-> L, NS |-> NS] /\ objs' = [x \in Ids |-> <<>>]
Reset == objs' = [x \in Ids |-> <<>>] /\ UNCHANGED <<shells, lanes>>
Sh(x) == shells[x + 1]
OneClass(pairs) == \A k \in 1..Len(pairs) : Sh(pairs[k][1]).am = Sh(pairs[1][1]).am /\ Sh(pairs[k][2]).am = Sh(pairs[1][2]).am

Set(id, pairs, m, ms) == /\ OneClass(pairs)
                         /\ objs' = [objs EXCEPT ![id] = [pairs |-> pairs, m |-> m, ms |-> ms]]
                         /\ UNCHANGED <<shells, lanes>>
Build(id, pairs, m) == Set(id, pairs, m, IF m > 0 THEN {m} ELSE {})
Product(A, B) == [k \in 1..(Len(A) * Len(B)) |-> <<A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1]>>]
Free(id) == objs' = [objs EXCEPT ![id] = <<>>] /\ UNCHANGED <<shells, lanes>>
\* concatenation: the pairs of the inputs in order; screening values only if all inputs have them
Cat(id, in, m) ==
    /\ \A k \in 1..Len(in) : objs[in[k]] # <<>> /\ in[k] # id /\ (m > 0 => objs[in[k]].m > 0)
    /\ LET pairs == FlattenSeq([k \in 1..Len(in) |-> objs[in[k]].pairs])
       IN Set(id, pairs, m, IF m > 0 THEN UNION { objs[x].ms : x \in Range(in) } ELSE {})

\* ---------------------------------------------------------------- storage
\* primitive combinations of a pair, and their weights
Combos(ab) == IF ab[1] = ab[2]
              THEN { <<i, j, IF i = j THEN 1 ELSE 2>> : i, j \in 0..(Sh(ab[1]).n - 1) } \ { <<i, j, w>> \in (0..20) \X (0..20) \X (1..2) : j > i }
              ELSE { <<i, j, 1>> : i \in 0..(Sh(ab[1]).n - 1), j \in 0..(Sh(ab[2]).n - 1) }
NComb(ab) == IF ab[1] = ab[2] THEN (Sh(ab[1]).n * (Sh(ab[1]).n + 1)) \div 2 ELSE Sh(ab[1]).n * Sh(ab[2]).n

\* what can be told apart from the stored values: data of the two shells, which primitive,
\* and the order of the two only if their centres differ
Ident(a, b, i, j, w) ==
    IF Sh(a).c # Sh(b).c THEN <<Sh(a).d, Sh(b).d, i, j, w>>
    ELSE LET x == <<Sh(a).d, i>>  y == <<Sh(b).d, j>>
             le == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
         IN IF le THEN <<x[1], y[1], x[2], y[2], w>> ELSE <<y[1], x[1], y[2], x[2], w>>
Round(n) == ((n + lanes.L - 1) \div lanes.L) * lanes.L
\* slots before pair k, and in total: batches of NS pairs are padded to whole vectors
Start(pairs) == FoldLeft(LAMBDA acc, k :
                    LET e == acc[k] + NComb(pairs[k])
                    IN Append(acc, IF k % lanes.NS = 0 \/ k = Len(pairs) THEN Round(e) ELSE e),
                  <<0>>, [k \in 1..Len(pairs) |-> k])

Bag(s) == [x \in Range(s) |-> Cardinality({ k \in 1..Len(s) : s[k] = x })]
BagOf(S, F(_)) == LET ids == { F(c) : c \in S } IN [x \in ids |-> Cardinality({ c \in S : F(c) = x })]

\* methods in the screening bits of a slot: 1 Schwarz value, 2 fast Schwarz value
HasMethod(bits, m) == IF m = 1 THEN bits % 2 = 1 ELSE (bits \div 2) % 2 = 1

PairOK(pairs, k, st, d, methods) ==
    LET ab == pairs[k]
        n == NComb(ab)
        sl == [x \in 1..n |-> d.slots[st[k] + x]]
    IN /\ d.nprim12[k] = n
       /\ d.ab[k] = (IF Sh(ab[1]).c = Sh(ab[2]).c THEN <<Sh(0).c, Sh(0).c>> ELSE <<Sh(ab[1]).c, Sh(ab[2]).c>>)
       /\ \A x \in 1..n : Len(sl[x]) = 6
       /\ Bag([x \in 1..n |-> Ident(sl[x][1], sl[x][2], sl[x][3], sl[x][4], sl[x][5])])
            = BagOf(Combos(ab), LAMBDA c : Ident(ab[1], ab[2], c[1], c[2], c[3]))
       \* filler up to the next pair
       /\ \A x \in (st[k] + n + 1)..st[k + 1] : d.slots[x] = <<-1>>
       \* screening values belong to their combination and do not increase
       /\ methods # {} =>
            /\ \A x \in 1..n : \E m \in methods : HasMethod(sl[x][6], m)
            /\ \A x \in 1..(n - 1) : d.scr[st[k] + x] >= d.scr[st[k] + x + 1]

MaxRank(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : y <= x

DumpOK(id, d) ==
    LET o == objs[id]
        st == TLCEval(Start(o.pairs))
        np == Len(o.pairs)
    IN /\ o # <<>> /\ d.same = 1
       /\ d.am = <<Sh(o.pairs[1][1]).am, Sh(o.pairs[1][2]).am>>
       /\ d.nshell12 = np /\ d.clip = np /\ Len(d.nprim12) = np
       /\ Len(d.slots) = st[np + 1]
       /\ \A k \in 1..np : PairOK(o.pairs, k, st, d, o.ms)
       /\ d.nprim = FoldLeft(LAMBDA s, x : s + x, 0, d.nprim12)
       /\ d.has = (IF o.m > 0 THEN 1 ELSE 0)
       /\ o.m > 0 => d.smax = MaxRank(d.scr) /\ \A x \in Range(d.scr) : x >= 0

\* integrals of a concatenation are those of its inputs
UseOK(u) == /\ objs[u.id].pairs = FlattenSeq([k \in 1..Len(u.in) |-> objs[u.in[k]].pairs])
            /\ u.bad = 0 /\ u.ret = u.sum /\ u.ret = Len(objs[u.id].pairs) * Len(objs[u.q].pairs)
=============================================================================
