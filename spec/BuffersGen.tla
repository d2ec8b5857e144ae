----------------------------- MODULE BuffersGen -----------------------------
(* Histories of integral calls on one pair of buffers: which call comes next *)
(* and what the buffers hold before it (4: what the last call left there).   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Calls, Depth, Fills
VARIABLE hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls, fw \in Fills, fo \in Fills : hist' = Append(hist, <<c, fw, fo>>)
Spec == Init /\ [][Next]_hist
Done == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
