------------------------------ MODULE Options ------------------------------
(* Generator options change the form of the code only: the library is one    *)
(* function from (order, class, shells) to integrals, whatever options it    *)
(* was generated with. The state is that function as far as it is known;     *)
(* a call adds to it or has to agree with it.                                *)
EXTENDS Integers, Sequences, TLC

VARIABLE known         \* input key -> integrals
NoIntegrals == <<>>

Call(key, ret, over, out) ==
    /\ ret = 1 /\ over = 0
    /\ \A i \in 1..Len(out) : out[i] >= 0          \* a field element
    /\ IF key \in DOMAIN known
       THEN known[key] = out /\ UNCHANGED known
       ELSE known' = (key :> out) @@ known
=============================================================================
