---------------------------- MODULE HooksTrace ----------------------------
(* Checks recorded executions of the real notification mechanism. *)
EXTENDS Hooks, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
Ev == Traces[t].ev[l]
Step == /\ l <= Len(Traces[t].ev)
        /\ CASE Ev.op = "hook"   -> Hook(Ev.a, Ev.b)
             [] Ev.op = "unhook" -> Unhook(Ev.a, Ev.b)
             [] Ev.op = "copy"   -> Copy(Ev.a, Ev.b)
             [] Ev.op = "renew"  -> Renew(Ev.a)
             [] Ev.op = "tell"   -> /\ Tell(Ev.a)
                                    /\ LET D == Delivered(Ev.a) IN
                                       /\ \A i \in 1..Len(Ev.out) : LET o == Ev.out[i] IN <<o[1], o[2]>> \in Tellers \X Listeners /\ D[<<o[1], o[2]>>] = o[3]
                                       /\ \A p \in Tellers \X Listeners : D[p] > 0 => \E i \in 1..Len(Ev.out) : Ev.out[i][1] = p[1] /\ Ev.out[i][2] = p[2]
             [] OTHER -> FALSE
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
TNext == /\ ok
         /\ l <= Len(Traces[t].ev)
         /\ \/ Step /\ l' = l + 1 /\ ok' = TRUE /\ UNCHANGED <<t, hist>>
            \/ ~ENABLED Step /\ ok' = FALSE /\ UNCHANGED <<t, l, reg, hist>>
Accepted == ok
============================================================================
