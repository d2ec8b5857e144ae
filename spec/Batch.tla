------------------------------- MODULE Batch -------------------------------
(* What one integral call over two lists of shell pairs has to deliver.      *)
(* A list is a sequence of primitive counts; primitives of pair a are        *)
(* numbered 1..S[a].  A call computes the leading cp x cq pairs; the result  *)
(* of quartet (a,c) is a bag of primitive quartets <<i,j>>.                  *)
EXTENDS Integers, Sequences, FiniteSets

Quartets(cp, cq) == (1..cp) \X (1..cq)

\* the primitive quartets that make up the shell quartet (a,c)
Own(P, Q, a, c) == (1..P[a]) \X (1..Q[c])

\* position of quartet (a,c) in the output, 1-based
Pos(a, c, cq) == (a - 1) * cq + c

\* contributions: set of <<i, j, multiplicity>>, multiplicity > 0
Exactly(contrib, P, Q, a, c) ==
    contrib = { <<ij[1], ij[2], 1>> : ij \in Own(P, Q, a, c) }

CallOK(P, Q, cp, cq, ret, out) ==
    /\ ret = cp * cq
    /\ Len(out) = cp * cq
    /\ \A a \in 1..cp, c \in 1..cq : Exactly(out[Pos(a, c, cq)], P, Q, a, c)

\* ---------------------------------------------------------------- screening
\* sP[a][i], sQ[c][j]: screening values; t: the tolerance. A primitive quartet is included once or not at all,
\* and included if its product reaches the squared tolerance (t = 0: screening is off).
Reaches(sP, sQ, a, c, ij, t) == t = 0 \/ sP[a][ij[1]] * sQ[c][ij[2]] >= t * t
ScreenedOK(contrib, P, Q, sP, sQ, a, c, t) ==
    /\ \A x \in contrib : x[3] = 1 /\ <<x[1], x[2]>> \in Own(P, Q, a, c)
    /\ \A ij \in Own(P, Q, a, c) : Reaches(sP, sQ, a, c, ij, t) => <<ij[1], ij[2], 1>> \in contrib
ScreenCallOK(P, Q, cp, cq, sP, sQ, t, ret, out) ==
    /\ Len(out) = cp * cq
    /\ ret = -1 \/ ret = cp * cq
    /\ ret = -1 => ~ \E a \in 1..cp, c \in 1..cq : \E ij \in Own(P, Q, a, c) : Reaches(sP, sQ, a, c, ij, t)
    /\ \A a \in 1..cp, c \in 1..cq : ScreenedOK(out[Pos(a, c, cq)], P, Q, sP, sQ, a, c, t)
\* with values that bound the integrals (Schwarz), quartet q = <<error in units of t rounded up, primitive
\* quartets below the tolerance, those reaching it>>; a combination of a shell with itself counts twice on either side
BoundOK(q) == q[1] <= 4 * q[2] + 1
=============================================================================
