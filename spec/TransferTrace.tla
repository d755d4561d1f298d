--------------------------- MODULE TransferTrace ---------------------------
EXTENDS Transfer, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
SetOf(s) == {s[k] : k \in 1..Len(s)}
Ev == Traces[t].ev[l]
E(h) == [em |-> h.em, s |-> h.s, tr |-> [c \in C |-> h.tr[c + 1]], m |-> [c \in 1..Chan |-> h.m[c]]]
\* the whole transmission dies at one encounter, whatever is looked at
Together(s) == \A k \in 1..Len(s) : (\A c \in C : s[k].tr[c] = 0 /\ \A d \in 1..Chan : s[k].m[d] = "zero")
                                    \/ (\A c \in C : s[k].tr[c] # 0 /\ \A d \in 1..Chan : s[k].m[d] \notin {"zero", "polp", "polm"})
See == /\ Ev.finite
       /\ (("Intensity" \in want) => Ev.Intensity = acc["Intensity"][0])
       /\ \A x \in {"Spectrum", "BinSpectrum", "Q", "U", "V"} : x \in want => \A c \in 1..Chan : Ev[x][c] = acc[x][c]
       /\ (Together(enc) /\ ~Ev.grouped => (("Redshift" \in want) => Ev.Redshift = red) /\ (("Time" \in want) => Ev.Time = nred))
       /\ Ev.hit = (enc # <<>>)
       /\ Ev.consistent        \* frequencies and lengths asked of the object were those of its frame
Begin == /\ want' = SetOf(Ev.want) /\ polar' = Ev.polar /\ noshift' = Ev.noshift /\ enc' = <<>>
         /\ tau' = [c \in C |-> 1] /\ mat' = [c \in 1..Chan |-> IdM]
         /\ acc' = [x \in Names |-> [c \in C |-> 0]] /\ red' = 0 /\ nred' = 0
TStep == \/ Ev.op = "start" /\ Begin
         \/ Ev.op = "meet" /\ Meet(E(Ev.e))
         \/ Ev.op = "see" /\ See /\ UNCHANGED vars
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ Start({}, FALSE, FALSE)
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED t
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<vars, t, l>>
=============================================================================
