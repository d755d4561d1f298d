------------------------------ MODULE MpiTrace ------------------------------
EXTENDS Mpi, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
SetOf(s) == {s[k] : k \in 1..Len(s)}
\* cell k of the image holds, for each quantity, the value of its pixel in the current scenery (0: nothing hit)
CellOk(k, c) == /\ c.p = sel[k] /\ {c.v[q].q : q \in 1..Len(c.v)} = SetOf(Ev.Q) /\ Len(c.v) = Cardinality(SetOf(Ev.Q))
                /\ \A q \in 1..Len(c.v) : IF out[k] = Nothing \/ (Ev.how = "reuse" /\ c.missed) THEN 0 \in SetOf(c.v[q].m)
                                          ELSE out[k][2] = version /\ out[k][1] \in SetOf(c.v[q].m)
\* the worker was waiting (or has become ready in the meantime)
Heard(w) == /\ phase = "render" /\ pend = 0 /\ w \in W /\ pend' = w
            /\ \/ Ev.tag = "ask" /\ wst[w] = "asking" /\ UNCHANGED wst
               \/ Ev.tag = "done" /\ wst[w] = "busy" /\ wst' = [wst EXCEPT ![w] = "done"]
            /\ UNCHANGED <<team, version, seen, masked, sel, next, phase, task, out, given>>
TStep == \/ Ev.op = "load" /\ Ev.res = "ok" /\ UNCHANGED <<team, version, seen, masked, sel, next, phase, pend, wst, task, out, given>>
         \/ Ev.op = "spawn" /\ Ev.res = "ok" /\ Spawn(Ev.n)
         \/ Ev.op = "clone" /\ Ev.res = "ok" /\ Clone
         \/ Ev.op = "change" /\ Ev.res = "ok" /\ Change(Ev.v)
         \/ Ev.op = "mask" /\ Ev.res = "ok" /\ SetMask(SetOf(Ev.m))
         \/ Ev.op = "start" /\ Ev.res = "ok" /\ Start(Ev.s)
         \/ Ev.op = "recv" /\ Heard(Ev.w)
         \/ Ev.op = "send" /\ Ev.tag = "task" /\ Give(Ev.w) /\ (Ev.p > 0 => Ev.p = sel[given'[Len(given')]])
         \/ Ev.op = "send" /\ Ev.tag = "impact" /\ pend = 0 /\ wst[Ev.w] = "busy" /\ UNCHANGED <<team, version, seen, masked, sel, next, phase, pend, wst, task, out, given>>
         \/ Ev.op = "send" /\ Ev.tag = "bye" /\ Release(Ev.w)
         \/ Ev.op = "end" /\ End /\ ~Ev.stray /\ Len(Ev.cells) = Len(sel) /\ \A k \in 1..Len(sel) : CellOk(k, Ev.cells[k])
         \/ Ev.op = "terminate" /\ Ev.res = "ok" /\ Ev.left = 0 /\ Terminate
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<vars, t, l>>
=============================================================================
