----------------------------- MODULE LanesAlgo ------------------------------
(* Accumulation done one addition at a time, in any order of lanes and       *)
(* components (lane by lane, component by component, or transposed in        *)
(* blocks): every order ends in the definition.                              *)
EXTENDS Lanes
CONSTANTS W, NC, NB
ASSUME W \in Nat /\ NC \in Nat /\ NB \in Nat
VARIABLES off, dst, todo
vars == <<off, dst, todo>>
\* distinct powers of two: a sum says which lanes of which components it contains
P2[k \in Nat] == IF k = 0 THEN 1 ELSE 2 * P2[k - 1]
Src == [np \in 1..NC |-> [n \in 1..W |-> P2[(np - 1) * W + n - 1]]]
D0 == [k \in 1..(NB * NC + 1) |-> 1000000 * k]              \* one element more than the blocks
Init == /\ off \in [1..W -> 0..(NB - 1)]
        /\ dst = D0
        /\ todo = (1..NC) \X (1..W)
Step == \E p \in todo :
          /\ todo' = todo \ {p}
          /\ dst' = [dst EXCEPT ![off[p[2]] * NC + p[1]] = @ + Src[p[1]][p[2]]]
          /\ UNCHANGED off
Next == Step \/ (todo = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Confluent == todo = {} => dst = Contracted(W, NC, off, Src, D0)
=============================================================================
