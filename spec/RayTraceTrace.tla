--------------------------- MODULE RayTraceTrace ---------------------------
(* Recorded calls of the real ray-tracer: "call" with its arguments, one      *)
(* "visit" per ray that reached the object, "ret" with the buffer contents.   *)
EXTENDS PixelSeq, FiniteSets, TLC, Json, IOUtils
CONSTANTS Threads, NPix
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok, cfg, visits
R == INSTANCE RayTrace WITH cur <- 0, pc <- 0, job <- 0, cells <- 0, sched <- 0
Ev == Traces[t].ev[l]
None == [k |-> "none"]
Step == /\ l <= Len(Traces[t].ev)
        /\ CASE Ev.op = "call" -> cfg' = Ev.cfg /\ visits' = <<>>
             [] Ev.op = "visit" -> /\ Cardinality({k \in 1..Len(visits) : visits[k] = Ev.p}) < R!Times(cfg, Ev.p)
                                   /\ visits' = Append(visits, Ev.p) /\ UNCHANGED cfg
             [] Ev.op = "ret" -> /\ Len(visits) = Cardinality({r \in R!Ranks(cfg) : R!Kept(cfg, R!Pts(cfg)[r])})
                                 /\ Len(Ev.cells) = R!NCells
                                 /\ \A k \in 1..R!NCells : Ev.cells[k] = (IF Ev.out THEN R!Expected(cfg)[k] ELSE R!Untouched)
                                 /\ UNCHANGED <<cfg, visits>>
             [] OTHER -> FALSE
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ cfg = None /\ visits = <<>>
TNext == /\ ok
         /\ l <= Len(Traces[t].ev)
         /\ \/ Step /\ l' = l + 1 /\ ok' = TRUE /\ UNCHANGED t
            \/ ~ENABLED Step /\ ok' = FALSE /\ UNCHANGED <<t, l, cfg, visits>>
Accepted == ok
============================================================================
