------------------------------- MODULE Shells -------------------------------
(* Shell objects. A value is an integer token for one bit pattern of a double; a slot is empty or holds
   [am, c (centre), a (exponents), k (coefficients)]. Every operation changes exactly the slots it names. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE slots                      \* slot number -> <<>> (initialised, empty) or <<record>>

Shell(am, c, a, k) == [am |-> am, c |-> c, a |-> a, k |-> k]
Holds(i) == slots[i] # <<>>

Reset(n) == slots' = [i \in 1..n |-> <<>>]
Create(i, am, c, a, k) == slots' = [slots EXCEPT ![i] = <<Shell(am, c, a, k)>>]
\* the dummy shell: zero and one are the tokens of 0.0 and 1.0
Dummy(i, zero, one) == slots' = [slots EXCEPT ![i] = <<Shell(0, <<zero, zero, zero>>, <<zero>>, <<one>>)>>]
Copy(s, d) == s # d /\ Holds(s) /\ slots' = [slots EXCEPT ![d] = slots[s]]
Free(S) == slots' = [i \in DOMAIN slots |-> IF i \in S THEN <<>> ELSE slots[i]]
\* normalising gives new coefficients; how close they are to the definition is in MaxUlp
Normalise(S, new) ==
  /\ \A i \in S : Holds(i)
  /\ slots' = [i \in DOMAIN slots |-> IF i \in S THEN <<[slots[i][1] EXCEPT !.k = new[i]]>> ELSE slots[i]]

(* coefficient error in units of 2^-52 of the coefficient that makes the self-overlap one (times the condition
   of that sum), and the error of the self-overlap, likewise *)
MaxUlp == 40
NormOK(res) == \A i \in DOMAIN res : res[i] >= 0 /\ res[i] <= MaxUlp

\* what a dump of the real objects shows
DumpOK(sl, dump) == \A i \in DOMAIN sl :
    IF sl[i] = <<>> THEN dump[i].n = -1 ELSE
      /\ dump[i].n = Len(sl[i][1].a) /\ dump[i].am = sl[i][1].am /\ dump[i].c = sl[i][1].c
      /\ dump[i].a = sl[i][1].a /\ dump[i].k = sl[i][1].k
=============================================================================
