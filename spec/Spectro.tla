------------------------------ MODULE Spectro ------------------------------
(* Spectrometers: uniform ones (kind, number of channels, band) and compound
   ones (ordered parts, possibly shared, possibly compound themselves).
   Positions on the spectral axis are integers, in units of 1/D of the unit of
   the kind (Hz, log10 Hz, m, log10 m).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxOps, Ops, Us, Cs, Copies     \* names of uniform and compound spectrometers, and of copies
D == 6000
KindNames == {"freq", "freqlog", "wave", "wavelog"}
IsLog(k) == k \in {"freqlog", "wavelog"}
Units(k) == IF k \in {"freq", "freqlog"} THEN {"_", "Hz", "kHz"} ELSE {"_", "m", "cm", "km"}
Exp(u) == CASE u \in {"_", "Hz", "m"} -> 0 [] u \in {"kHz", "km"} -> 3 [] u = "cm" -> -2
P10(e) == CASE e = 0 -> <<1, 1>> [] e = 3 -> <<1000, 1>> [] e = -2 -> <<1, 100>>
ToSI(k, x, u) == IF IsLog(k) THEN x + Exp(u) * D ELSE (x * P10(Exp(u))[1]) \div P10(Exp(u))[2]
\* band read in a unit: exact multiple of 1/D or not representable
FromSI(k, x, u) == IF IsLog(k) THEN x - Exp(u) * D ELSE IF Exp(u) = 3 THEN x \div 1000 ELSE (x * P10(Exp(u))[2]) \div P10(Exp(u))[1]
Exact(k, x, u) == IsLog(k) \/ (IF Exp(u) = 3 THEN x % 1000 = 0 ELSE x < 20000000)
Bands == {<<3, 9>>, <<12, 6>>, <<2, 5>>}
Ns == {0, 1, 2, 3, 4}

VARIABLES heap,   \* sequence of objects [t, kind, n, lo, hi, parts]
          root,   \* name -> index in heap, 0: none
          hist
vars == <<heap, root, hist>>
Names == Us \cup Cs \cup Copies
NewU == [t |-> "u", kind |-> "wave", n |-> 0, lo |-> 0, hi |-> 0, parts |-> <<>>]
NewC == [t |-> "c", kind |-> "Complex", n |-> 0, lo |-> 0, hi |-> 0, parts |-> <<>>]
Start == SetToSeq(Us \cup Cs)
Init == /\ heap = [i \in 1..Len(Start) |-> IF Start[i] \in Us THEN NewU ELSE NewC]
        /\ root = [x \in Names |-> IF x \in Copies THEN 0 ELSE CHOOSE i \in 1..Len(Start) : Start[i] = x]
        /\ hist = <<>>

\* ---- what a spectrometer is -------------------------------------------------
\* channels as <<kind, lower coordinate, upper coordinate>>; boundaries likewise
Pos(o, i) == o.lo + (i * (o.hi - o.lo)) \div o.n
RECURSIVE Bounds(_, _)
Bounds(h, x) == LET o == h[x] IN
   IF o.t = "u" THEN IF o.n = 0 THEN <<>> ELSE [i \in 1..(o.n + 1) |-> <<o.kind, Pos(o, i - 1)>>]
   ELSE FoldLeft(LAMBDA a, p : a \o Bounds(h, p), <<>>, o.parts)
RECURSIVE Chans(_, _)
Chans(h, x) == LET o == h[x] IN
   IF o.t = "u" THEN [i \in 1..o.n |-> <<i - 1, i>>]
   ELSE FoldLeft(LAMBDA a, p : LET c == Chans(h, p) IN <<a[1] \o [i \in 1..Len(c) |-> <<c[i][1] + a[2], c[i][2] + a[2]>>], a[2] + Len(Bounds(h, p))>>,
                 <<<<>>, 0>>, o.parts)[1]
RECURSIVE Under(_, _)   \* everything an object is made of, itself included
Under(h, x) == {x} \cup UNION {Under(h, h[x].parts[i]) : i \in 1..Len(h[x].parts)}
RECURSIVE At(_, _, _)   \* the object designated by a name and a path of ranks
At(h, x, path) == IF path = <<>> THEN x ELSE At(h, h[x].parts[path[1]], Tail(path))
\* deep copy: <<heap, index of the copy>>
RECURSIVE Deep(_, _)
Deep(h, x) == LET o == h[x]
                  r == FoldLeft(LAMBDA a, p : LET d == Deep(a[1], p) IN <<d[1], Append(a[2], d[2])>>, <<h, <<>>>>, o.parts)
              IN <<Append(r[1], [o EXCEPT !.parts = r[2]]), Len(r[1]) + 1>>

\* ---- transitions --------------------------------------------------------------
Edit(x, o) == heap' = [heap EXCEPT ![x] = o] /\ UNCHANGED root
SetN(x, n) == Edit(x, [heap[x] EXCEPT !.n = n])
SetKind(x, k) == Edit(x, [heap[x] EXCEPT !.kind = k])
SetBand(x, b, u) == LET o == heap[x] IN Edit(x, [o EXCEPT !.lo = ToSI(o.kind, b[1] * D, u), !.hi = ToSI(o.kind, b[2] * D, u)])
Append_(c, x) == Edit(c, [heap[c] EXCEPT !.parts = Append(@, x)])
Remove_(c, i) == Edit(c, [heap[c] EXCEPT !.parts = RemoveAt(@, i)])
Copy(x, k) == LET d == Deep(heap, x) IN heap' = d[1] /\ root' = [root EXCEPT ![k] = d[2]]
Renew(u) == heap' = Append(heap, NewU) /\ root' = [root EXCEPT ![u] = Len(heap) + 1]
Make(u, n, b, k) == heap' = Append(heap, [NewU EXCEPT !.kind = k, !.n = n, !.lo = b[1] * D, !.hi = b[2] * D]) /\ root' = [root EXCEPT ![u] = Len(heap) + 1]
Drop(k) == root' = [root EXCEPT ![k] = 0] /\ UNCHANGED heap
Refuse == UNCHANGED <<heap, root>>

\* ---- exploration ----------------------------------------------------------------
Log(e) == hist' = Append(hist, e)
Live == {r \in Names : root[r] # 0}
\* designations of uniform parts: by name, or inside a compound
Paths == {<<r, <<>>>> : r \in {x \in Live : heap[root[x]].t = "u"}}
         \cup UNION {{<<r, <<i>>>> : i \in {j \in 1..Len(heap[root[r]].parts) : heap[heap[root[r]].parts[j]].t = "u"}} : r \in {x \in Live : heap[root[x]].t = "c"}}
\* logarithms of large numbers overflow: not explored
Small(o) == o.lo <= 30 * D /\ o.hi <= 30 * D
Step == \/ "n" \in Ops /\ \E p \in Paths, n \in Ns : LET x == At(heap, root[p[1]], p[2]) IN
             heap[x].n # n /\ SetN(x, n) /\ Log([op |-> "n", r |-> p[1], path |-> p[2], n |-> n])
        \/ "kind" \in Ops /\ \E p \in Paths, k \in KindNames : LET x == At(heap, root[p[1]], p[2]) IN
             heap[x].kind # k /\ (IsLog(k) => Small(heap[x])) /\ SetKind(x, k) /\ Log([op |-> "kind", r |-> p[1], path |-> p[2], k |-> k])
        \/ "band" \in Ops /\ \E p \in Paths : LET x == At(heap, root[p[1]], p[2]) IN
             \E b \in Bands, u \in Units(heap[x].kind) : SetBand(x, b, u) /\ Log([op |-> "band", r |-> p[1], path |-> p[2], b |-> b, u |-> u])
        \/ "badband" \in Ops /\ \E p \in Paths : Refuse /\ \E u \in {"kg", "nounit"} : Log([op |-> "badband", r |-> p[1], path |-> p[2], u |-> u])
        \/ "append" \in Ops /\ \E c \in Cs : \E x \in Us \cup Cs : /\ root[c] \notin Under(heap, root[x]) /\ Len(heap[root[c]].parts) < 3
                                                           /\ Append_(root[c], root[x]) /\ Log([op |-> "append", r |-> c, x |-> x])
        \/ "remove" \in Ops /\ \E c \in Cs \cup Copies : /\ root[c] # 0 /\ heap[root[c]].t = "c"
                                          /\ \E i \in 1..Len(heap[root[c]].parts) : Remove_(root[c], i) /\ Log([op |-> "remove", r |-> c, i |-> i])
        \/ "badindex" \in Ops /\ \E c \in Cs : Refuse /\ \E w \in {"get", "remove"} : Log([op |-> "badindex", r |-> c, how |-> w])
        \/ "copy" \in Ops /\ \E c \in Us \cup Cs, k \in Copies, w \in {"clone", "xml"} : root[k] = 0 /\ Copy(root[c], k) /\ Log([op |-> w, r |-> c, k |-> k])
        \/ "renew" \in Ops /\ \E u \in Us : Renew(u) /\ Log([op |-> "renew", r |-> u])
        \/ "make" \in Ops /\ \E u \in Us, n \in Ns \ {0}, b \in Bands, k \in KindNames : Make(u, n, b, k) /\ Log([op |-> "make", r |-> u, n |-> n, b |-> b, k |-> k])
        \/ "drop" \in Ops /\ \E k \in Copies : root[k] # 0 /\ Drop(k) /\ Log([op |-> "drop", r |-> k])
Next == Step

\* ---- properties -------------------------------------------------------------------
Tiling == \A r \in Live : LET o == heap[root[r]] IN (o.t = "u" /\ o.n > 0) =>
             /\ Bounds(heap, root[r])[1][2] = o.lo /\ Bounds(heap, root[r])[o.n + 1][2] = o.hi
             /\ Len(Chans(heap, root[r])) = o.n
             /\ \A i \in 1..(o.n - 1) : Chans(heap, root[r])[i][2] = Chans(heap, root[r])[i + 1][1]
Concatenation == \A r \in Live : LET o == heap[root[r]] IN (o.t = "c") =>
             Len(Chans(heap, root[r])) = FoldLeft(LAMBDA a, p : a + Len(Chans(heap, p)), 0, o.parts)
Acyclic == \A r \in Live : \A i \in 1..Len(heap[root[r]].parts) : root[r] \notin Under(heap, heap[root[r]].parts[i])
\* a part removed, or an original, does not show through any more
Isolated == [][\A r \in Live : (root'[r] = root[r] /\ \A x \in Under(heap, root[r]) : heap'[x] = heap[x]) =>
               Bounds(heap', root'[r]) = Bounds(heap, root[r])]_vars
View == <<heap, root>>
Bound == Len(hist) < MaxOps
EmitEnd == (Len(hist) = MaxOps) => PrintT(ToJson(hist))
=============================================================================
