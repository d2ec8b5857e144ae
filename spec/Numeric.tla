------------------------------ MODULE Numeric -------------------------------
(* How far computed values may be from the exact ones, in units of 2^-53     *)
(* (half the precision of a double).                                         *)
EXTENDS Integers, Sequences
\* Boys functions F_0..F_n, error relative to the value. The asymptotic form is used for n < 4 beyond the switching
\* point, where it neglects exp(-x) x^(n-1/2): 3.6e-13 of F_3, 2.4e-14 of F_2.
NearSwitch(k) == k \in 5..8
BoysTol(n, k) == 20 + 4 * n + (IF n = 3 /\ NearSwitch(k) THEN 4200 ELSE IF n = 2 /\ NearSwitch(k) THEN 320 ELSE 0)
BoysOK(n, cat, res, over) == /\ over = 0
                             /\ \A i \in 1..Len(cat) : res[i] >= 0 /\ res[i] <= BoysTol(n, cat[i])
\* integrals and gradients: relative to the largest magnitude of any term of the class at primitive level
EriTol(l, der) == 40 + 4 * (l[1] + l[2] + l[3] + l[4] + der)
EriOK(l, der, n, res) == n = 1 /\ res >= 0 /\ res <= EriTol(l, der)
\* one-electron integrals, likewise
OeiTol(l) == 40 + 4 * (l[1] + l[2])
OeiOK(l, n, res) == n = 1 /\ res >= 0 /\ res <= OeiTol(l)
=============================================================================
