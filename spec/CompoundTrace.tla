--------------------------- MODULE CompoundTrace ---------------------------
EXTENDS Compound
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
\* ---- observations made after every step
\* of an astronomical object: parts, their metrics, extent
MetOK(x, m, c) == /\ x.lab = (IF m = 0 THEN 0 ELSE ml'[m]) /\ x.eq = (m = c)
AObsOK(b) == LET s == seqs'[b.o] IN
   /\ b.n = Len(s)
   /\ b.lab = [i \in 1..Len(s) |-> label'[s[i]]]
   /\ \A i \in 1..Len(s) : b.base[i] = (IF s[i] <= NP THEN s[i] ELSE 0)      \* which of the given objects it is, 0: another one
   /\ b.distinct = (\A i, j \in 1..Len(s) : (i # j /\ s[i] > NP) => s[i] # s[j])
   /\ b.bad = <<"error", "error">>                                          \* reading and removing past the end
   /\ MetOK(b.cm, cm'[b.o], cm'[b.o]) /\ b.cm.eq
   /\ \A i \in 1..Len(s) : MetOK(b.pm[i], pm'[s[i]], cm'[b.o])
   /\ b.rmax = Max({0} \cup {Tab.rmax[label'[s[i]]] : i \in 1..Len(s)})
   /\ b.dmax = Min({Tab.far} \cup {Tab.dmax[label'[s[i]]] : i \in 1..Len(s)})
Sum(s, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, s)
Near(a, b, n) == a - b <= n + 1 /\ b - a <= n + 1
Hidden(s) == [i \in 1..Len(s) |-> label'[s[i]]]
MObsOK(b) == LET s == seqs'[b.o]
                 lb == Hidden(s) IN
   /\ b.n = Len(s)
   /\ b.lab = lb
   /\ \A i \in 1..Len(s) : b.base[i] = (IF s[i] <= NP THEN s[i] ELSE 0)
   /\ b.bad = <<"error", "error">>
   /\ b.coord = (IF s = <<>> THEN "none" ELSE Coord(lb[1]))
   /\ \A k \in 1..Len(b.g) : Near(b.g[k], Sum(lb, LAMBDA x : Tab.g[x][k]), Len(s))
   /\ \A k \in 1..Len(b.j) : Near(b.j[k], Sum(lb, LAMBDA x : Tab.j[x][k]), Len(s))
   /\ \A k \in 1..Len(b.stop) : b.stop[k] = (\E i \in 1..Len(s) : Tab.stop[lb[i]][k])
   /\ b.inv
ObsOK(e) == \A k \in 1..Len(e.obs) : IF Which = "astrobj" THEN AObsOK(e.obs[k]) ELSE MObsOK(e.obs[k])
Watch == /\ {Ev.obs[k].o : k \in 1..Len(Ev.obs)} = (IF alive' THEN {"c", "d"} ELSE {"c"})
         /\ (ObsOK(Ev) = TRUE)
Said(x) == Ev.res = x
\* whoever listens to a compound metric hears of every change of its parts
Told(b) == Which = "metric" => (b => Ev.told)
\* ---- rays
Hitting(o, seg) == SelectSeq(Labels(o), LAMBDA x : seg \in ToSet(Tab.hits[x]))
RayOK(e) == LET h == Hitting(e.o, e.seg) IN
   /\ e.hit0 = (h # <<>>) /\ e.quiet              \* asked whether it hits, nothing processed
   /\ e.hit = (h # <<>>)
   /\ IF h = <<>> THEN e.calls = <<>>
      ELSE IF Len(h) = 1 THEN e.calls = <<[lab |-> h[1], r |-> 1, tr |-> 0]>> /\ e.whole
      ELSE /\ e.subs >= 2 /\ e.tiles /\ Len(e.calls) = e.subs * Len(h)
           /\ \A k \in 1..Len(e.calls) : e.calls[k] = [lab |-> h[((k - 1) % Len(h)) + 1], r |-> ((k - 1) \div Len(h)) + 1, tr |-> k - 1]
   /\ e.left = Len(e.calls)                        \* transmission left in the ray, as the number of halvings
TStep == CASE Ev.op = "append" -> (IF Refused(Ev.o, Ev.p) THEN Refuse /\ Said("error") ELSE Append_(Ev.o, Ev.p) /\ Said("ok") /\ Told(TRUE)) /\ Watch
           [] Ev.op = "remove" -> (IF Ev.i > Len(seqs[Ev.o]) THEN Refuse /\ Said("error") ELSE Remove_(Ev.o, Ev.i) /\ Said("ok") /\ Told(TRUE)) /\ Watch
           [] Ev.op = "assign" -> (IF Ev.i > Len(seqs[Ev.o]) THEN Refuse /\ Said("error") ELSE Assign(Ev.o, Ev.i, Ev.p) /\ Said("ok")) /\ Watch
           [] Ev.op = "setmetric" -> SetMetric(Ev.o, Ev.g) /\ Said("ok") /\ Watch
           [] Ev.op = "partmetric" -> PartMetric(Ev.p, Ev.g) /\ Said("ok") /\ Watch
           [] Ev.op = "clone" -> Clone /\ Said("ok") /\ Watch
           [] Ev.op = "drop" -> Drop /\ Said("ok") /\ Watch
           [] Ev.op = "ray" -> Refuse /\ (RayOK(Ev) = TRUE)
           [] Ev.op = "real" -> Refuse /\ Ev.res = "ok"
           [] OTHER -> FALSE
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<state, hist, t, l>>
=============================================================================
