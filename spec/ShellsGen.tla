------------------------------ MODULE ShellsGen -----------------------------
(* Histories of shell objects for replay. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Prims, Depth
VARIABLES hist, full
Init == hist = <<>> /\ full = {}
Do(r) == hist' = Append(hist, r)
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in 1..N, n \in Prims, h \in {"create", "alloc"} : Do([op |-> h, i |-> i, n |-> n]) /\ full' = full \cup {i}
           \/ \E i \in 1..N : Do([op |-> "dummy", i |-> i, n |-> 0]) /\ full' = full \cup {i}
           \/ \E s \in full, d \in 1..N : s # d /\ Do([op |-> "copy", i |-> s, n |-> d]) /\ full' = full \cup {d}
           \/ \E i, j \in 1..N : i <= j /\ Do([op |-> "free", i |-> i, n |-> j]) /\ full' = full \ (i..j)
           \/ \E i, j \in 1..N : i <= j /\ i..j \subseteq full /\ Do([op |-> "norm", i |-> i, n |-> j]) /\ UNCHANGED full
           \/ \E i, j \in full : Do([op |-> "pair", i |-> i, n |-> j]) /\ UNCHANGED full
Spec == Init /\ [][Next]_<<hist, full>>
Done == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
