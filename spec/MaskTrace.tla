------------------------------ MODULE MaskTrace ------------------------------
EXTENDS Mask, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
See(o, s) == /\ o.n = s.n
             /\ o.m = s.m
             /\ o.f = s.f
             /\ Len(o.kept) = s.n * s.n /\ Len(o.drawn) = s.n * s.n
             /\ \A k \in 1..(s.n * s.n) : o.kept[k] = Kept(s, k) /\ o.drawn[k] = Kept(s, k)
             /\ o.outside            \* a pixel outside the screen is an error
TStep == /\ Do(Ev.h)
         /\ (Ev.res = "error") = Refused(Ev.h.op, Ev.h.x, IF Ev.h.op \in {"save", "load"} THEN Ev.h.f ELSE "", IF Ev.h.op = "save" THEN Ev.h.over ELSE FALSE)
         /\ See(Ev.a, scr'["a"]) /\ See(Ev.b, scr'["b"])
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<scr, files, hist, t, l>>
==============================================================================
