------------------------------ MODULE BatchGen ------------------------------
(* Random call configurations (for vector lengths where enumeration is too   *)
(* large): lists of primitive counts and clips.                              *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, MaxP, MaxQ, MaxPrim, Vals, Tols    \* Vals = {}: no screening
VARIABLE n
List(m) == LET k == RandomElement(1..m)
               hi == RandomElement(1..MaxPrim)
           IN TLCEval([x \in 1..k |-> RandomElement(1..hi)])
\* non-increasing within a pair, as a shell pair stores them
ScreenOf(S) == [a \in 1..Len(S) |->
                  LET hi == RandomElement(Vals)
                      raw == TLCEval([k \in 1..S[a] |-> RandomElement({ v \in Vals : v <= hi })])
                  IN SortSeq(raw, LAMBDA x, y : x > y)]
Init == n = 0
Next == /\ n < N /\ n' = n + 1
        /\ LET P == List(MaxP)   Q == List(MaxQ)
               cp == IF RandomElement(1..3) = 1 THEN RandomElement(1..Len(P)) ELSE Len(P)
               cq == IF RandomElement(1..2) = 1 THEN RandomElement(1..Len(Q)) ELSE Len(Q)
           IN PrintT("CFG " \o ToJson([P |-> P, Q |-> Q, cp |-> cp, cq |-> cq]
                  @@ (IF Vals = {} THEN [sP |-> <<>>, sQ |-> <<>>, tol |-> 0]
                      ELSE [sP |-> ScreenOf(P), sQ |-> ScreenOf(Q), tol |-> RandomElement(Tols)])))
Spec == Init /\ [][Next]_n
=============================================================================
