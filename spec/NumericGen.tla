----------------------------- MODULE NumericGen -----------------------------
(* The input patterns of the accuracy check.                                 *)
(*  "boys": for each lane of a vector the kind of its argument: 0 zero,      *)
(*   1 tiny, 2 at and 3 between multiples of 1/10, 4 anywhere below the      *)
(*   switch, 5 just below, 6 at, 7 just above it, 8 above, 9 huge; the check *)
(*   adds all multiples of 1/10 and the points between them.               *)
(*  "eri": the kind of the four exponents (0 diffuse .. 3 very tight), of    *)
(*   the distance within bra and ket (0 none, 1 tiny, 2 a bond, 3 far, 4     *)
(*   very far) and between them (5: argument of the Boys function around     *)
(*   its switching point).                                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode, W, Kinds, Orders
VARIABLE c
Init == IF Mode = "boys"
        THEN \E f \in [1..W -> Kinds], n \in Orders : c = [n |-> n, cat |-> f]
        ELSE \E e \in [1..4 -> 0..3], ab \in 0..4, cd \in 0..4, pq \in 0..5 : c = [x |-> e, d |-> <<ab, cd, pq>>]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
