-------------------------- MODULE SmartPtrMTTrace --------------------------
(* Recorded multi-thread executions: events are begin/end of operations and   *)
(* destructions, in the order in which they happened.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok, held, gone
Ev == Traces[t].ev[l]
NT == 8
Tot == LET RECURSIVE S(_)
           S(i) == IF i = 0 THEN 0 ELSE held[i] + S(i - 1)
       IN S(NT)
Step == /\ l <= Len(Traces[t].ev)
        /\ CASE Ev.op = "start" -> held' = [i \in 1..NT |-> IF i <= Ev.n THEN 1 ELSE 0] /\ gone' = 0
             [] Ev.op = "copied" -> held[Ev.th] > 0 /\ gone = 0 /\ held' = [held EXCEPT ![Ev.th] = @ + 1] /\ UNCHANGED gone
             [] Ev.op = "drop" -> held[Ev.th] > 0 /\ gone = 0 /\ held' = [held EXCEPT ![Ev.th] = @ - 1] /\ UNCHANGED gone
             [] Ev.op = "destroyed" -> gone = 0 /\ Tot = 0 /\ gone' = 1 /\ UNCHANGED held
             [] Ev.op = "end" -> gone = 1 /\ Tot = 0 /\ UNCHANGED <<held, gone>>
             [] OTHER -> FALSE
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ held = [i \in 1..NT |-> 0] /\ gone = 0
TNext == /\ ok
         /\ l <= Len(Traces[t].ev)
         /\ \/ Step /\ l' = l + 1 /\ ok' = TRUE /\ UNCHANGED t
            \/ ~ENABLED Step /\ ok' = FALSE /\ UNCHANGED <<t, l, held, gone>>
Accepted == ok
============================================================================
