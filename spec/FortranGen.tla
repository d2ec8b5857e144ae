----------------------------- MODULE FortranGen -----------------------------
(* Histories of calls for replay through both interfaces: random ones, with  *)
(* a preference for calls that have something to work on.                    *)
EXTENDS Fortran, TLC, Json
CONSTANTS Depth, Ready   \* Ready: the history starts by making all objects
VARIABLES hist
S == 1..NS
P == 1..NP
Ops == <<"init_shell", "init_shells", "init_pair", "init_pairs", "alloc", "free", "frees", "norm", "norm", "copy", "copy", "copyfresh",
         "create", "create", "create", "create", "create", "zero", "free_pair", "free_pairs", "pair", "pair", "pair", "pair2", "pair2",
         "eri", "eri", "deriv", "deriv", "deriv", "worksize", "workmem", "overlap", "ke", "potential", "potential", "simint_init", "again">>
Args(op) ==
    CASE op \in {"init_shell", "free", "zero"} -> { <<i>> : i \in S }
      [] op \in {"init_shells", "frees", "norm"} -> S \X (0..NS)
      [] op = "alloc" -> S \X (1..3)
      [] op \in {"copy", "copyfresh", "overlap", "ke"} -> S \X S
      [] op = "create" -> S \X (1..3) \X (0..MaxAm) \X (1..3)
      [] op \in {"init_pair", "free_pair"} -> { <<p>> : p \in P }
      [] op \in {"init_pairs", "free_pairs"} -> P \X (0..NP)
      [] op = "pair" -> S \X (1..3) \X S \X (1..3) \X P \X (0..2) \X (1..2)
      [] op = "pair2" -> S \X (1..2) \X P \X (0..2) \X (1..2)
      [] op = "eri" -> P \X P \X (0..1)
      [] op = "deriv" -> (0..MaxDer) \X P \X P \X (0..1)
      [] op \in {"worksize", "workmem"} -> (0..MaxDer) \X (0..MaxAm)
      [] op = "potential" -> (0..3) \X S \X S
      [] OTHER -> { <<>> }
States(f) == [i \in DOMAIN f |-> f[i].st]
Step(op, x) == Call(op, x) /\ hist' = Append(hist, [op |-> op, x |-> x, s |-> States(sh'), p |-> States(pr')])
Init == FInit /\ hist = <<>>
Setup == <<"init_shells", "init_pairs">> \o [i \in S |-> "create"] \o [p \in P |-> "pair"]
InSetup(op, x, k) == CASE k <= 2 -> x[1] = 1 /\ x[2] = (IF k = 1 THEN NS ELSE NP) [] op = "create" -> x[1] = k - 2 [] OTHER -> x[5] = k - 2 - NS
Next == /\ Len(hist) < Depth
        /\ LET k == Len(hist) + 1  first == Ready /\ k <= Len(Setup) IN
           \E op \in { IF first THEN Setup[k] ELSE RandomElement({ <<j, Ops[j]>> : j \in 1..Len(Ops) })[2] } :
             LET ok == { x \in Args(op) : Ok(op, x) /\ (first => InSetup(op, x, k)) } IN
             IF ok = {} THEN UNCHANGED <<sh, pr, hist>>
             ELSE \E x \in { RandomElement(ok) } : Step(op, x)
        /\ (Len(hist') = Depth /\ Len(hist) < Depth) => PrintT("HIST " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<sh, pr, hist>>
=============================================================================
