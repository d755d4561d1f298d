--------------------------- MODULE PixelSetsTrace ---------------------------
EXTENDS PixelSets, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
Ev == Traces[t].ev[l]
Obs == IF sel'.k = "refused" THEN Ev.err
       ELSE /\ ~Ev.err
            /\ Ev.size = N(sel')
            /\ Ev.valid = Valid(sel', pos')
            /\ (Ev.valid => IF IsTwo(sel') THEN <<Ev.x, Ev.y>> = Points(sel')[pos'] ELSE Ev.x = Points(sel')[pos'] /\ Ev.ix = pos' - 1)
            /\ (IsTwo(sel') => Ev.angle = Angle2(sel'))
Step == /\ l <= Len(Traces[t].ev)
        /\ CASE Ev.op = "make" -> Make(Ev.s)
             [] Ev.op = "inc" -> Advance
             [] Ev.op = "begin" -> Begin
             [] OTHER -> FALSE
        /\ Obs
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
TNext == /\ ok
         /\ l <= Len(Traces[t].ev)
         /\ \/ Step /\ l' = l + 1 /\ ok' = TRUE /\ UNCHANGED <<t, hist>>
            \/ ~ENABLED Step /\ ok' = FALSE /\ UNCHANGED <<t, l, sel, pos, hist>>
Accepted == ok
============================================================================
