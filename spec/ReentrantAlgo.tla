--------------------------- MODULE ReentrantAlgo ----------------------------
(* How calls are carried out, memory access by memory access. Cells: tables  *)
(* (written by Setup only), inputs (shared, read only), and per call a work  *)
(* area and an output. With these footprints every interleaving returns what *)
(* each call returns alone. Scratch = "shared" stands for a routine with     *)
(* hidden static scratch space: TLC finds the interleaving that breaks it.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Calls, Scratch                    \* Calls: per thread, a sequence of inputs
ASSUME Scratch \in {"own", "shared"}
VARIABLES table, input, work, out, pc, k, acc
vars == <<table, input, work, out, pc, k, acc>>
In == {"p", "q", "r"}
F(tab, x) == tab * 10 + (CASE x = "p" -> 1 [] x = "q" -> 2 [] x = "r" -> 3)
WorkArea(t) == IF Scratch = "own" THEN t ELSE "static"
Init == /\ table = 7 /\ input = [x \in In |-> x]
        /\ work = [w \in Threads \cup {"static"} |-> 0]
        /\ out = [t \in Threads |-> <<>>]
        /\ pc = [t \in Threads |-> "start"] /\ k = [t \in Threads |-> 1] /\ acc = [t \in Threads |-> 0]
Begin(t) == /\ pc[t] = "start" /\ k[t] <= Len(Calls)
            /\ work' = [work EXCEPT ![WorkArea(t)] = 0]            \* clear the work space
            /\ pc' = [pc EXCEPT ![t] = "prim"] /\ UNCHANGED <<table, input, out, k, acc>>
Prim(t)  == /\ pc[t] = "prim"                                       \* accumulate a primitive into the work space
            /\ work' = [work EXCEPT ![WorkArea(t)] = @ + F(table, input[Calls[k[t]]])]
            /\ pc' = [pc EXCEPT ![t] = "hrr"] /\ UNCHANGED <<table, input, out, k, acc>>
Hrr(t)   == /\ pc[t] = "hrr" /\ acc' = [acc EXCEPT ![t] = work[WorkArea(t)] + table]
            /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED <<table, input, work, out, k>>
Store(t) == /\ pc[t] = "store" /\ out' = [out EXCEPT ![t] = Append(@, acc[t])]
            /\ k' = [k EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "start"]
            /\ UNCHANGED <<table, input, work, acc>>
Done == (\A t \in Threads : pc[t] = "start" /\ k[t] > Len(Calls)) /\ UNCHANGED vars
Next == (\E t \in Threads : Begin(t) \/ Prim(t) \/ Hrr(t) \/ Store(t)) \/ Done
Spec == Init /\ [][Next]_vars
AsAlone == \A t \in Threads : \A i \in 1..Len(out[t]) : out[t][i] = F(7, Calls[i]) + 7
ReadOnly == [][table' = table /\ input' = input]_vars
=============================================================================
