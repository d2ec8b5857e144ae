--------------------------- MODULE DispatchTrace ----------------------------
EXTENDS Dispatch, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Events[i + 1]
Step == /\ i < Len(Events) /\ i' = i + 1
        /\ CASE e.ev = "I" -> Initialise
             [] e.ev = "F" -> Finalise
             [] e.ev = "C" -> \A k \in DOMAIN e.calls : ready /\ (IF CallOK(e.calls[k]) THEN TRUE ELSE PrintT("BADCALL " \o ToJson(e.calls[k])) /\ FALSE) /\ UNCHANGED ready
TraceSpec == DInit /\ i = 0 /\ [][Step]_<<i, ready>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
