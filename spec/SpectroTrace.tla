---------------------------- MODULE SpectroTrace ----------------------------
EXTENDS Spectro, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Traces[t].ev[l]
X == At(heap, root[Ev.r], Ev.path)
\* coordinates of an observed boundary in the four spacings
Coord(b, k) == CASE k = "freq" -> b[1] [] k = "freqlog" -> b[2] [] k = "wave" -> b[3] [] k = "wavelog" -> b[4]
\* a band never set, or with null or negative frequencies or wavelengths, has no meaning
Unset(h, x) == \E y \in Under(h, x) : h[y].t = "u" /\ (h[y].lo = h[y].hi \/ (~IsLog(h[y].kind) /\ (h[y].lo <= 0 \/ h[y].hi <= 0)))
Same(o, h, x) == LET b == Bounds(h, x)
                     ch == Chans(h, x) IN
   /\ o.n = Len(ch) /\ o.kind = h[x].kind
   /\ Len(o.b) = Len(b)
   /\ o.ind = ch
   /\ (Unset(h, x) \/ ((\A i \in 1..Len(b) : Coord(o.b[i], b[i][1]) = b[i][2]) /\ o.mid /\ o.width /\ o.unit))
   /\ (h[x].t = "u" => /\ o.band = <<h[x].lo, h[x].hi>>
                       /\ \A u \in Units(h[x].kind) : \A i \in 1..2 : LET v == IF i = 1 THEN h[x].lo ELSE h[x].hi IN
                             Exact(h[x].kind, v, u) /\ (\E e \in 1..Len(o.inunit) : o.inunit[e].u = u) =>
                                \E e \in 1..Len(o.inunit) : o.inunit[e].u = u /\ o.inunit[e].v[i] = FromSI(h[x].kind, v, u))
   /\ (h[x].t = "c" => o.card = Len(h[x].parts))
Obs == \A i \in 1..Len(Ev.obs) : LET o == Ev.obs[i] IN
          IF root'[o.r] = 0 THEN o.dead
          ELSE /\ ~o.dead
               /\ Same(o, heap', root'[o.r])
               \* listeners were told if what they can see changed
               /\ (root'[o.r] = root[o.r] /\ (Bounds(heap, root[o.r]) # Bounds(heap', root[o.r]) \/ Chans(heap, root[o.r]) # Chans(heap', root[o.r]))) => o.told
TStep == /\ CASE Ev.op = "n" -> SetN(X, Ev.n)
              [] Ev.op = "kind" -> SetKind(X, Ev.k)
              [] Ev.op = "band" -> SetBand(X, Ev.b, Ev.u)
              [] Ev.op \in {"badband", "badindex"} -> Refuse
              [] Ev.op = "append" -> Append_(root[Ev.r], root[Ev.x])
              [] Ev.op = "remove" -> Remove_(root[Ev.r], Ev.i)
              [] Ev.op \in {"clone", "xml"} -> Copy(root[Ev.r], Ev.k)
              [] Ev.op = "renew" -> Renew(Ev.r)
              [] Ev.op = "make" -> Make(Ev.r, Ev.n, Ev.b, Ev.k)
              [] Ev.op = "drop" -> Drop(Ev.r)
              [] OTHER -> FALSE
         /\ Ev.res = (IF Ev.op \in {"badband", "badindex"} THEN "error" ELSE "ok")
         /\ Obs
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
\* a trace the specification does not allow ends in a deadlock
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<heap, root, hist, t, l>>
=============================================================================
