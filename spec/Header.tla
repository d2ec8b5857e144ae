------------------------------- MODULE Header -------------------------------
(* Generator processes running in parallel write their prototypes to one shared file. Each process is
   the sequence of operations recorded from a real generator program: open (append? truncate?) and write.
   The content of a write is a sequence of tokens, where a prototype that a write splits is several tokens.
   TLC explores every interleaving; at the end the file holds every prototype in one piece, exactly once. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Prog  == JsonDeserialize(IOEnv.PROGS)      \* [procs |-> <<program, ...>>, decls |-> <<<<token, ...>>, ...>>, limit |-> n]
Procs == DOMAIN Prog.procs

VARIABLES file, pc, pos
vars == <<file, pc, pos>>

Init == /\ file = Prog.head /\ pc = [p \in Procs |-> 1] /\ pos = [p \in Procs |-> 0]

Running == {p \in Procs : pc[p] > 1 /\ pc[p] <= Len(Prog.procs[p])}

Overwrite(f, at, toks) ==
  [k \in 1..(IF at + Len(toks) > Len(f) THEN at + Len(toks) ELSE Len(f)) |->
     IF k > at /\ k <= at + Len(toks) THEN toks[k - at] ELSE f[k]]

Step(p) ==
  /\ pc[p] <= Len(Prog.procs[p])
  \* at most so many processes are between their first and last operation
  /\ pc[p] > 1 \/ Cardinality(Running) < Prog.limit
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ LET o == Prog.procs[p][pc[p]] IN
       IF o.op = "open"
       THEN file' = (IF o.trunc THEN <<>> ELSE file) /\ pos' = [pos EXCEPT ![p] = 0]
       ELSE LET at == IF o.app THEN Len(file) ELSE IF pos[p] > Len(file) THEN Len(file) ELSE pos[p] IN
            file' = Overwrite(file, at, o.toks) /\ pos' = [pos EXCEPT ![p] = at + Len(o.toks)]

Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars

Done == \A p \in Procs : pc[p] > Len(Prog.procs[p])
At(d, k) == k + Len(d) - 1 <= Len(file) /\ SubSeq(file, k, k + Len(d) - 1) = d
Intact == Done => \A i \in DOMAIN Prog.decls :
                    Cardinality({k \in DOMAIN file : At(Prog.decls[i], k)}) = 1
=============================================================================
