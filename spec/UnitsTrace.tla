----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS Units
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
\* what the code answered: exponents, or none if it refused
Gives(x) == /\ Ev.err = IsErr(x)
            /\ ~IsErr(x) => Ev.val = x
TStep == CASE Ev.op = "to" -> Gives(To(Ev.f, val, unit, g)) /\ DoTo(Ev.f)
           [] Ev.op = "from" -> Gives(From(Ev.f, val, Ev.u, g)) /\ DoFrom(Ev.f, Ev.u)
           [] Ev.op = "convert" -> Gives(Convert(val, unit, Ev.u)) /\ DoConvert(Ev.u)
           [] Ev.op = "fresh" -> Fresh(Ev.u)
           [] Ev.op = "mass" -> Mass(Ev.j) /\ ~Ev.err
           [] Ev.op = "set" -> Ev.err = IsErr(To(Tab.props[Ev.p], val, unit, g)) /\ SetProp(Ev.p)
           [] Ev.op = "read" -> Gives(From(Tab.props[Ev.p], prop[Ev.p], Ev.u, g)) /\ (IF Ev.err THEN UNCHANGED state ELSE ReadProp(Ev.p, Ev.u))
           [] OTHER -> FALSE
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<state, hist, t, l>>
=============================================================================
