------------------------------ MODULE Fortran -------------------------------
(* The life of shells and shell pairs as a caller of either interface sees   *)
(* it: which procedure may be called when, and what it makes of the objects  *)
(* (the kind of contents, angular momentum and number of primitives). Both   *)
(* interfaces are instances of this one machine.                             *)
EXTENDS Integers, Sequences
CONSTANTS NS, NP, MaxDer, MaxAm
VARIABLES sh, pr
\* st: 0 never initialised, 1 empty, 2 memory only, 3 complete, 4 the dummy shell
Shell(st, am, n) == [st |-> st, am |-> am, n |-> n]
\* scr: it carries screening values, without which a tolerance has no meaning
Pair(st, a, b, n, scr) == [st |-> st, am1 |-> a, am2 |-> b, n |-> n, scr |-> scr]
FInit == /\ sh = [i \in 1..NS |-> Shell(0, 0, 0)] /\ pr = [i \in 1..NP |-> Pair(0, 0, 0, 0, FALSE)]

Range(lo, n) == lo..(lo + n - 1)
InSh(lo, n) == lo >= 1 /\ n >= 0 /\ lo + n - 1 <= NS
InPr(lo, n) == lo >= 1 /\ n >= 0 /\ lo + n - 1 <= NP
SameAm(R) == \A i, j \in R : sh[i].am = sh[j].am
Made(R) == \A i \in R : sh[i].st = 3
\* the shells of the two positions of a pair: one of the positions may hold the dummy
Positions(A, B) == /\ \A i \in A \cup B : sh[i].st >= 3
                   /\ SameAm(A) /\ SameAm(B)
                   /\ Made(A) \/ Made(B)
Screened(p, q, tol) == tol > 0 => pr[p].scr /\ pr[q].scr
SetSh(R, r) == sh' = [i \in 1..NS |-> IF i \in R THEN r ELSE sh[i]] /\ UNCHANGED pr
SetPr(R, r) == pr' = [i \in 1..NP |-> IF i \in R THEN r ELSE pr[i]] /\ UNCHANGED sh
Same == UNCHANGED <<sh, pr>>

\* may it be called; the arguments are the sequence x
Ok(op, x) ==
    CASE op = "init_shell"  -> InSh(x[1], 1) /\ sh[x[1]].st <= 1
      [] op = "init_shells" -> InSh(x[1], x[2]) /\ \A i \in Range(x[1], x[2]) : sh[i].st <= 1
      [] op \in {"alloc", "free", "create", "zero"} -> InSh(x[1], 1) /\ sh[x[1]].st > 0
      [] op = "frees"       -> InSh(x[1], x[2]) /\ \A i \in Range(x[1], x[2]) : sh[i].st > 0
      [] op = "norm"        -> InSh(x[1], x[2]) /\ Made(Range(x[1], x[2]))
      [] op = "copy"        -> InSh(x[1], 1) /\ InSh(x[2], 1) /\ x[1] # x[2] /\ sh[x[1]].st >= 3 /\ sh[x[2]].st > 0
      [] op = "copyfresh"   -> InSh(x[1], 1) /\ InSh(x[2], 1) /\ x[1] # x[2] /\ sh[x[1]].st >= 3 /\ sh[x[2]].st <= 1
      [] op = "init_pair"   -> InPr(x[1], 1) /\ pr[x[1]].st <= 1
      [] op = "init_pairs"  -> InPr(x[1], x[2]) /\ \A i \in Range(x[1], x[2]) : pr[i].st <= 1
      [] op = "free_pair"   -> InPr(x[1], 1) /\ pr[x[1]].st > 0
      [] op = "free_pairs"  -> InPr(x[1], x[2]) /\ \A i \in Range(x[1], x[2]) : pr[i].st > 0
      \* a, na, b, nb, pair, screening method, step of both ranges
      [] op = "pair" ->
           /\ x[2] >= 1 /\ x[4] >= 1 /\ x[7] >= 1
           /\ InSh(x[1] + x[7] * (x[2] - 1), 1) /\ InSh(x[3] + x[7] * (x[4] - 1), 1) /\ InPr(x[5], 1) /\ pr[x[5]].st > 0
           /\ Positions({ x[1] + x[7] * k : k \in 0..(x[2] - 1) }, { x[3] + x[7] * k : k \in 0..(x[4] - 1) })
      \* a, npair, pair, screening method, step: the shells a, a + step, ... are the two of the first pair, of the second ...
      [] op = "pair2" ->
           /\ x[2] >= 1 /\ x[5] >= 1 /\ InSh(x[1] + x[5] * (2 * x[2] - 1), 1) /\ InPr(x[3], 1) /\ pr[x[3]].st > 0
           /\ Positions({ x[1] + x[5] * (2 * k - 2) : k \in 1..x[2] }, { x[1] + x[5] * (2 * k - 1) : k \in 1..x[2] })
      [] op = "eri"      -> InPr(x[1], 1) /\ InPr(x[2], 1) /\ pr[x[1]].st = 3 /\ pr[x[2]].st = 3 /\ Screened(x[1], x[2], x[3])
      [] op = "deriv"    -> /\ x[1] \in 0..MaxDer /\ InPr(x[2], 1) /\ InPr(x[3], 1)
                            /\ pr[x[2]].st = 3 /\ pr[x[3]].st = 3 /\ Screened(x[2], x[3], x[4])
      [] op \in {"worksize", "workmem"} -> x[1] \in 0..MaxDer /\ x[2] \in 0..MaxAm
      [] op \in {"overlap", "ke"} -> Made({x[1], x[2]})
      [] op = "potential" -> x[1] >= 0 /\ Made({x[2], x[3]})
      [] op \in {"simint_init", "again"} -> TRUE    \* again: finalize, then init

\* what it makes of the objects
Effect(op, x) ==
    CASE op = "init_shell" -> SetSh({x[1]}, Shell(1, 0, 0))
      [] op \in {"init_shells", "frees"} -> SetSh(Range(x[1], x[2]), Shell(1, 0, 0))
      [] op = "alloc"  -> SetSh({x[1]}, Shell(2, 0, 0))
      [] op = "free"   -> SetSh({x[1]}, Shell(1, 0, 0))
      [] op \in {"copy", "copyfresh"} -> SetSh({x[2]}, sh[x[1]])
      [] op = "create" -> SetSh({x[1]}, Shell(3, x[3], x[2]))
      [] op = "zero"   -> SetSh({x[1]}, Shell(4, 0, 1))
      [] op \in {"init_pair", "free_pair"} -> SetPr({x[1]}, Pair(1, 0, 0, 0, FALSE))
      [] op \in {"init_pairs", "free_pairs"} -> SetPr(Range(x[1], x[2]), Pair(1, 0, 0, 0, FALSE))
      [] op = "pair"   -> SetPr({x[5]}, Pair(3, sh[x[1]].am, sh[x[3]].am, x[2] * x[4], x[6] > 0))
      [] op = "pair2"  -> SetPr({x[3]}, Pair(3, sh[x[1]].am, sh[x[1] + x[5]].am, x[2], x[4] > 0))
      [] OTHER -> Same
Call(op, x) == Ok(op, x) /\ Effect(op, x)
=============================================================================
