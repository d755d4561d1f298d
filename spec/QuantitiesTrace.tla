-------------------------- MODULE QuantitiesTrace --------------------------
EXTENDS Quantities, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
SetOf(s) == {s[k] : k \in 1..Len(s)}
H == IF Ev.h.op = "flags" THEN [op |-> "flags", S |-> SetOf(Ev.h.S)] ELSE Ev.h
\* with NbCrossEqPlane, User1 to User3 receive the image orders
Orders(x) == x \in {"User1", "User2", "User3"} /\ "NbCrossEqPlane" \in Eff(q')
Plane(n) == CHOOSE k \in 1..Len(Ev.planes) : Ev.planes[k].n = n
See == /\ SetOf(Ev.flags) = Eff(q') /\ Len(Ev.flags) = Cardinality(Eff(q'))
       /\ SetOf(Ev.names) = Eff(q') /\ Len(Ev.names) = Cardinality(Eff(q'))
       /\ Ev.nscalar = Count(Eff(q'), Scalars)
       /\ Ev.nspectral = Count(Eff(q'), Spectral)
       /\ Ev.polar = polar'
       /\ Ev.rendered = CanRender(q', polar')
       /\ (Ev.rendered =>
             /\ {Ev.planes[k].n : k \in 1..Len(Ev.planes)} = Eff(q')
             /\ \A n \in {x \in Eff(q') : ~Orders(x)} : Ev.planes[Plane(n)].u = UnitOf(n, u'))
TStep == /\ Do(H)
         /\ (Ev.res = "error") = (Ev.h.op = "list" /\ ~ListOk(Ev.h.L))
         /\ See
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist, draft>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<q, u, polar, hist, draft, t, l>>
=============================================================================
