---------------------------- MODULE RenderTrace ----------------------------
EXTENDS Render, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
SetOf(s) == {s[k] : k \in 1..Len(s)}
\* cell k of the output: pixel p, and for every quantity the pixels whose value it is (0: the "nothing hit" values)
CellOk(c, Q) == /\ {c.v[k].q : k \in 1..Len(c.v)} = Q /\ Len(c.v) = Cardinality(Q)
                /\ \A k \in 1..Len(c.v) : IF c.p \in Mask(Ev.via) \/ (Ev.how = "reuse" /\ c.missed) THEN 0 \in SetOf(c.v[k].m) ELSE c.p \in SetOf(c.v[k].m)
Rendered == /\ Ev.res = "ok" /\ ~Ev.stray
            /\ Len(Ev.cells) = Len(Ev.s)
            /\ \A k \in 1..Len(Ev.s) : Ev.cells[k].p = Ev.s[k] /\ CellOk(Ev.cells[k], SetOf(Ev.Q))
TStep == \/ Ev.op = "render" /\ Rendered /\ DoRender(Ev.s, 1, SetOf(Ev.Q), [k \in 1..Len(Ev.s) |-> 1], Mask(Ev.via))
         \/ Ev.op = "record" /\ Rendered /\ DoRecord(Ev.s)
         \/ Ev.op = "mask" /\ Ev.res = "ok" /\ DoMask(SetOf(Ev.m))
         \/ Ev.op = "clone" /\ Ev.res = "ok" /\ DoClone
         \/ Ev.op = "swap" /\ Ev.res = "ok" /\ DoSwap
         \/ Ev.op = "load" /\ Ev.res = "ok" /\ UNCHANGED <<masked, omask, recorded, ray, out>>
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<vars, t, l>>
=============================================================================
