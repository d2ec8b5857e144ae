------------------------------ MODULE Buffers ------------------------------
(* Integral calls as operations on memory. The memory is what the call was   *)
(* given (inputs, workspace, output) and everything else. A call may change  *)
(* the workspace and the output only; the output becomes a function of the   *)
(* inputs, whatever workspace and output held and whatever was called        *)
(* before. The function is not fixed here (that is Eri): it is learned from  *)
(* the first call of each kind, so that all histories have to agree.         *)
EXTENDS Integers, Sequences, TLC

VARIABLES val,      \* call -> <<return value, output>> once known
          sizes     \* derivative order -> sequence of reported workspace sizes
vars == <<val, sizes>>
Init == val = <<>> /\ sizes = <<>>

Known(id) == id \in DOMAIN val
Result(id, r) == IF Known(id) THEN val[id] = r /\ UNCHANGED val
                 ELSE val' = (id :> r) @@ val

\* c: the observed call
Call(c) == /\ c.died = 0 /\ c.guard = 0 /\ c.inputs = 0
           /\ c.ret = c.expect \/ (c.scr = 1 /\ c.ret = -1)
           /\ c.nan = 0
           /\ Result(c.id, <<c.ret, c.h>>)
           /\ UNCHANGED sizes
NewBuffers == UNCHANGED vars

\* reported sizes: in elements and bytes, in order of the angular momentum
Size(s) == /\ s.bytes = 8 * s.n /\ s.n > 0
           /\ LET old == IF s.der \in DOMAIN sizes THEN sizes[s.der] ELSE <<>>
              IN /\ Len(old) = s.am
                 /\ (IF old = <<>> THEN TRUE ELSE old[Len(old)] <= s.n)
                 /\ sizes' = (s.der :> Append(old, s.n)) @@ sizes
           /\ UNCHANGED val
=============================================================================
