------------------------------ MODULE PairsGen ------------------------------
(* Histories of shell-pair objects, to be replayed into the library: objects *)
(* are built from lists, concatenated, freed and reused in any order.        *)
(* List number n stands for a list of the harness; its class is n % 2.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objs, Lists, Methods, MaxIn, Depth
VARIABLES hist, st      \* st: object -> <<>> or <<class, method, pairs counted up to 2>>

Init == hist = <<>> /\ st = [o \in Objs |-> <<>>]
Step(op) == hist' = Append(hist, op)
Build(o, n, m) == /\ st' = [st EXCEPT ![o] = <<n % 2, m>>]
                  /\ Step([op |-> "B", id |-> o, list |-> n, m |-> m, in |-> <<>>])
Free(o) == /\ st[o] # <<>> /\ st' = [st EXCEPT ![o] = <<>>]
           /\ Step([op |-> "F", id |-> o, list |-> 0, m |-> 0, in |-> <<>>])
Cat(o, in, m) == /\ \A k \in 1..Len(in) : /\ in[k] # o /\ st[in[k]] # <<>>
                                          /\ st[in[k]][1] = st[in[1]][1]
                                          /\ (m > 0 => st[in[k]][2] > 0)
                 /\ st' = [st EXCEPT ![o] = <<st[in[1]][1], m>>]
                 /\ Step([op |-> "C", id |-> o, list |-> 0, m |-> m, in |-> in])
Next == /\ Len(hist) < Depth
        /\ \/ \E o \in Objs, n \in Lists, m \in Methods : Build(o, n, m)
           \/ \E o \in Objs : Free(o)
           \/ \E o \in Objs, k \in 1..MaxIn, m \in Methods : \E in \in [1..k -> Objs] : Cat(o, in, m)
Spec == Init /\ [][Next]_<<hist, st>>
Done == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
\* no history reaches an object whose inputs were unfit (sanity of the generator)
Fit == \A k \in 1..Len(hist) : hist[k].op = "C" => Len(hist[k].in) > 0
=============================================================================
