----------------------------- MODULE Reentrant ------------------------------
(* Calls running at the same time. A call reads its inputs (which calls may  *)
(* share) and the tables, works in its own buffers and returns a value that  *)
(* is a function of its inputs alone.                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ready,      \* the tables are set up
          res,        \* call -> the value it returns when it runs alone (known so far)
          running     \* thread -> the call it is in, or 0
rvars == <<ready, res, running>>
Idle(t) == IF t \in DOMAIN running THEN running[t] = 0 ELSE TRUE
Start(t, c) == /\ ready /\ Idle(t)
               /\ running' = [x \in DOMAIN running \cup {t} |-> IF x = t THEN c ELSE running[x]]
               /\ UNCHANGED <<ready, res>>
\* hidden: number of writes seen to data that is neither an output of the call nor its work space; inputs: inputs changed
End(t, c, value, hidden, inputs) ==
               /\ t \in DOMAIN running /\ running[t] = c
               /\ c \in DOMAIN res /\ value = res[c]
               /\ hidden = 0 /\ inputs = 0
               /\ running' = [running EXCEPT ![t] = 0]
               /\ UNCHANGED <<ready, res>>
Alone(c, value) == /\ ready /\ \A t \in DOMAIN running : running[t] = 0
                   /\ IF c \in DOMAIN res THEN res[c] = value ELSE TRUE
                   /\ res' = [x \in DOMAIN res \cup {c} |-> IF x = c THEN value ELSE res[x]]
                   /\ UNCHANGED <<ready, running>>
\* all threads have ended; races: conflicting unordered accesses that were seen
Quiesce(races) == /\ races = 0 /\ \A t \in DOMAIN running : running[t] = 0
                  /\ running' = <<>> /\ UNCHANGED <<ready, res>>
=============================================================================
