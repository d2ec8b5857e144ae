---------------------------- MODULE FortranTrace ----------------------------
(* The same history through the C and through the Fortran interface. After   *)
(* every call an event holds the result and all objects: of the C run (c),   *)
(* of the Fortran run as C sees its memory (m) and as Fortran sees it (f).   *)
EXTENDS Fortran, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
\* what is absolute: the members that the machine knows
KnownShell(v, s) == s.st \in {3, 4} => v[1] = ToString(s.am) /\ v[2] = ToString(s.n)
KnownPair(v, s) == s.st = 3 => v[1] = ToString(s.am1) /\ v[2] = ToString(s.am2) /\ v[4] = ToString(s.n) /\ v[5] = ToString(s.n)
EmptyShell(v, s) == s.st = 1 => v[8] = "0" /\ v[9] = "null"
Known(o) == /\ \A i \in 1..NS : KnownShell(o[1][i], sh'[i]) /\ EmptyShell(o[1][i], sh'[i])
            /\ \A i \in 1..NP : KnownPair(o[2][i], pr'[i])
New == sh' = [i \in 1..NS |-> Shell(0, 0, 0)] /\ pr' = [i \in 1..NP |-> Pair(0, 0, 0, 0, FALSE)]
Layout == e.c = e.f /\ New
DoCall == e.ev = "call" /\ Call(e.op, e.x) /\ e.rc = e.rf /\ e.c = e.m /\ e.m = e.f /\ Known(e.f)
Init == l = 1 /\ FInit
Step == l <= Len(Trace) /\ l' = l + 1 /\ (CASE e.ev = "layout" -> Layout [] e.ev = "start" -> New [] OTHER -> DoCall)
TraceSpec == Init /\ [][Step]_<<l, sh, pr>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
