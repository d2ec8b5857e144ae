-------------------------------- MODULE GFp --------------------------------
(* Arithmetic of the prime field GF(46327); all values in 0..PP-1.           *)
(* PP*PP < 2^31, so products fit TLC's integers.                             *)
EXTENDS Integers, Sequences, TLC, SequencesExt

PP == 46327
Mul(a, b) == (a * b) % PP
Add(a, b) == (a + b) % PP
Sub(a, b) == (a - b + PP) % PP
Neg(a) == (PP - a) % PP
IsInv(a, ia) == ia \in 1..(PP-1) /\ Mul(a, ia) = 1
Half == 23164

\* The stand-ins for the transcendental functions (harness/gf/gf_prelude.h)
ExpF(x) == LET h == Add(x, 3) IN Add(Mul(h, h), 5)
BoysF(x, m) == LET h == (Mul(x, m + 1) + 17 * m * m + 5) % PP
               IN (Mul(h, h) + Mul(Mul(3, h), m) + m + 1) % PP
PairK == 12345     \* sqrt(2) pi^(5/4)

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE Mul(a, Pow(a, n - 1))

RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE (SumSeq(s, n - 1) + s[n]) % PP

\* Cartesian components of a shell, lexicographic: x first, then y
RECURSIVE CartY(_, _, _)
CartY(x, y, z) == IF y < 0 THEN <<>> ELSE <<<<x, y, z>>>> \o CartY(x, y - 1, z + 1)
RECURSIVE CartX(_, _)
CartX(l, x) == IF x < 0 THEN <<>> ELSE CartY(x, l - x, 0) \o CartX(l, x - 1)
Cart(l) == CartX(l, l)
NCart(l) == ((l + 1) * (l + 2)) \div 2
=============================================================================
