--------------------------- MODULE SmartPtrTrace ---------------------------
EXTENDS SmartPtr, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
Ev == Traces[t].ev[l]
Obs == /\ err' = Ev.err
       /\ died' = {Ev.died[i] : i \in 1..Len(Ev.died)} /\ Cardinality(died') = Len(Ev.died)      \* each dies once
       /\ \A r \in Roots : Ev.at[r] = pt'[r]
       /\ \A o \in Objs : Ev.cnt[o] = IF kind'[o] = "-" THEN 0 ELSE Count(pt', child', kind', o)
Step == /\ l <= Len(Traces[t].ev)
        /\ CASE Ev.op = "new" -> New(Ev.r, Ev.f)
             [] Ev.op = "assign" -> Assign(Ev.r, Ev.q)
             [] Ev.op = "null" -> Null(Ev.r)
             [] Ev.op = "setchild" -> SetChild(Ev.r, Ev.q)
             [] Ev.op = "takechild" -> TakeChild(Ev.r, Ev.q)
             [] Ev.op = "valcopy" -> ValueCopy(Ev.r, Ev.q)
             [] Ev.op = "clone" -> Clone(Ev.r, Ev.q)
             [] OTHER -> FALSE
        /\ Obs
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
TNext == /\ ok
         /\ l <= Len(Traces[t].ev)
         /\ \/ Step /\ l' = l + 1 /\ ok' = TRUE /\ UNCHANGED <<t, hist>>
            \/ ~ENABLED Step /\ ok' = FALSE /\ UNCHANGED <<t, l, pt, child, kind, died, err, hist>>
Accepted == ok
============================================================================
