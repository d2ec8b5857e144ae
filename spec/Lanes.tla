------------------------------- MODULE Lanes -------------------------------
(* The lane operations of the library, for a vector of any width W. A vector *)
(* is a sequence of W lanes; an operation acts on each lane by itself, the   *)
(* accumulations add every lane of every source to exactly one destination.  *)
EXTENDS Integers, Sequences, FiniteSets

LaneMap(W, f(_, _), a, b) == [n \in 1..W |-> f(a[n], b[n])]
Add(x, y) == x + y
Sub(x, y) == x - y
Mul(x, y) == x * y

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN f[n] + SumOver(f, S \ {n})

\* dst after lane n of src[1..nc] was added to the block number off[n] (blocks of nc elements, counted from 0)
Contracted(W, nc, off, src, dst) ==
    [k \in DOMAIN dst |->
        LET blk == (k - 1) \div nc
            np  == ((k - 1) % nc) + 1
        IN dst[k] + SumOver([n \in 1..W |-> src[np][n]], {n \in 1..W : off[n] = blk})]

Scaled(W, nc, fac, src) == [np \in 1..nc |-> LaneMap(W, Mul, src[np], fac)]

\* a partial load: the first m lanes of memory, zero elsewhere
Masked(W, m, mem) == [n \in 1..W |-> IF n <= m THEN mem[n] ELSE 0]

MinOf(v) == CHOOSE x \in {v[n] : n \in DOMAIN v} : \A n \in DOMAIN v : x <= v[n]
MaxOf(v) == CHOOSE x \in {v[n] : n \in DOMAIN v} : \A n \in DOMAIN v : x >= v[n]

\* the smallest multiple of W that holds x elements
Round(W, x) == CHOOSE y \in x..(x + W - 1) : y % W = 0

\* two builds agree on a call: residual in units of 1e-12 of the largest value of the call, -1: not a finite number
SameTol == 100
SameOK(res, n, n0) == res >= 0 /\ res <= SameTol /\ n = n0
=============================================================================
