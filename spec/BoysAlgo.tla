------------------------------ MODULE BoysAlgo ------------------------------
(* How the Boys functions F_0..F_n of one vector are computed. Lanes lie     *)
(* below, at or above the switching point M. Methods: the Taylor grid        *)
(* (defined up to M), the asymptotic form (accurate from M on for n < 4),    *)
(* recursion upward from F_0 (stable from M on), downward from F_n (stable   *)
(* below M; needs F_n by the grid). Every lane and order must end with a     *)
(* value got by a method valid for that lane.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, N, Small            \* vector width, highest order, first order of the recursive variant
VARIABLES x, n, how, pc, k
vars == <<x, n, how, pc, k>>
Regions == {"below", "at", "above"}
Lanes == 1..W
AllAbove == \A i \in Lanes : x[i] = "above"
AllBelow == \A i \in Lanes : x[i] = "below"
Init == /\ x \in [Lanes -> Regions] /\ n \in 0..N
        /\ how = [i \in Lanes |-> [m \in 0..n |-> "none"]]
        /\ pc = "pick" /\ k = 0
SetAll(i, f) == [how EXCEPT ![i] = [m \in 0..n |-> f]]
Pick == /\ pc = "pick"
        /\ IF n < Small
           THEN /\ pc' = "done" /\ UNCHANGED k
                /\ how' = [i \in Lanes |-> [m \in 0..n |->
                             IF AllAbove THEN "asymptotic" ELSE IF AllBelow THEN "grid"
                             ELSE IF x[i] = "below" THEN "grid" ELSE "asymptotic"]]
           ELSE IF AllAbove
           THEN /\ how' = [i \in Lanes |-> [m \in 0..n |-> "up"]] /\ pc' = "done" /\ UNCHANGED k
           ELSE /\ how' = [i \in Lanes |-> [how[i] EXCEPT ![n] = IF AllBelow \/ x[i] = "below" THEN "grid" ELSE "zero"]]
                /\ pc' = "down" /\ k' = n - 1
        /\ UNCHANGED <<x, n>>
Down == /\ pc = "down" /\ k >= 0
        /\ how' = [i \in Lanes |-> [how[i] EXCEPT ![k] = IF how[i][k + 1] \in {"grid", "down"} THEN "down" ELSE "junk"]]
        /\ k' = k - 1 /\ UNCHANGED <<x, n, pc>>
Replace == /\ pc = "down" /\ k < 0
           /\ how' = [i \in Lanes |-> IF ~ AllBelow /\ x[i] # "below" THEN [m \in 0..n |-> "up"] ELSE how[i]]
           /\ pc' = "done" /\ UNCHANGED <<x, n, k>>
Next == Pick \/ Down \/ Replace \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Valid(i, m) == CASE how[i][m] = "grid" -> x[i] # "above"
                 [] how[i][m] = "down" -> x[i] = "below"
                 [] how[i][m] = "asymptotic" -> x[i] # "below" /\ n < 4
                 [] how[i][m] = "up" -> x[i] # "below"
                 [] OTHER -> FALSE
AllValid == pc = "done" => \A i \in Lanes, m \in 0..n : Valid(i, m)
=============================================================================
