---------------------------- MODULE DispatchGen -----------------------------
(* Histories of initialisation and finalisation with calls in between; "C" stands for a sweep over calls. *)
EXTENDS Dispatch, Json
CONSTANT Depth
VARIABLE hist
Init == DInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ Initialise /\ hist' = Append(hist, "I")
           \/ hist # <<>> /\ Finalise /\ hist' = Append(hist, "F")
           \/ ready /\ hist[Len(hist)] # "C" /\ hist' = Append(hist, "C") /\ UNCHANGED ready
Spec == Init /\ [][Next]_<<ready, hist>>
\* maximal histories that end in a call
Emit == Len(hist) = Depth /\ hist[Depth] = "C" => PrintT("HIST " \o ToJson(hist))
=============================================================================
