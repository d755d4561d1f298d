-------------------------------- MODULE Mask --------------------------------
(* Two screens and a few files.  A screen has a resolution, possibly a mask   *)
(* (one value per pixel, row by row) and the file it came from or went to.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Pats      \* Pats: the masks used, records [n, m]
Slots == {"a", "b"}
Dyn == {"f1", "f2"}                    \* files written by the history
Planes == [n |-> 2, m |-> <<1, 0, 0, 2>>]   \* file "mp" has two planes, only the first one counts
VARIABLES scr, files, hist
vars == <<scr, files, hist>>
NoMask == <<>>
Absent == [n |-> 0, m |-> <<>>]
New == [n |-> 2, m |-> NoMask, f |-> ""]
\* a pixel is rendered iff there is no mask or the mask is not null there
Kept(s, k) == s.m = NoMask \/ s.m[k] # 0
Content(f) == IF f = "mp" THEN Planes ELSE IF f \in Dyn THEN files[f] ELSE Absent
SetMask(x, p) == scr' = [scr EXCEPT ![x] = [n |-> p.n, m |-> p.m, f |-> ""]] /\ UNCHANGED files
Drop(x) == scr' = [scr EXCEPT ![x].m = NoMask, ![x].f = ""] /\ UNCHANGED files
Resize(x, n) == /\ scr' = (IF n = scr[x].n THEN scr ELSE [scr EXCEPT ![x] = [n |-> n, m |-> NoMask, f |-> ""]])
                /\ UNCHANGED files
\* an existing file is only overwritten on request
CanSave(x, f, over) == scr[x].m # NoMask /\ (over \/ files[f] = Absent)
Save(x, f, over) == IF CanSave(x, f, over)
                    THEN files' = [files EXCEPT ![f] = [n |-> scr[x].n, m |-> scr[x].m]] /\ scr' = [scr EXCEPT ![x].f = f]
                    ELSE UNCHANGED <<scr, files>>
\* a missing file is ignored, a bad one refused: nothing changes
Load(x, f) == /\ scr' = (IF Content(f) = Absent THEN scr ELSE [scr EXCEPT ![x] = [n |-> Content(f).n, m |-> Content(f).m, f |-> f]])
              /\ UNCHANGED files
Bad == {"ns", "tr"}                    \* not square, truncated
Refused(op, x, f, over) == (op = "save" /\ ~CanSave(x, f, over)) \/ (op = "load" /\ f \in Bad) \/ op = "savenoname"
Clone(x, y) == scr' = [scr EXCEPT ![y] = scr[x]] /\ UNCHANGED files
\* through XML only a mask that has a file is carried
XmlOk(x) == scr[x].f = "" \/ Content(scr[x].f).n = scr[x].n
Xml(x, y) == /\ scr' = [scr EXCEPT ![y] = IF scr[x].f = "" THEN [scr[x] EXCEPT !.m = NoMask] ELSE [scr[x] EXCEPT !.m = Content(scr[x].f).m]]
             /\ UNCHANGED files
Do(h) == CASE h.op = "set" -> SetMask(h.x, h.p)
           [] h.op = "drop" -> Drop(h.x)
           [] h.op = "res" -> Resize(h.x, h.n)
           [] h.op = "save" -> Save(h.x, h.f, h.over)
           [] h.op = "savenoname" -> scr[h.x].f = "" /\ UNCHANGED <<scr, files>>
           [] h.op = "load" -> Load(h.x, h.f)
           [] h.op = "clone" -> Clone(h.x, h.y)
           [] h.op = "xml" -> XmlOk(h.x) /\ Xml(h.x, h.y)
Ops == UNION {
   [op : {"set"}, x : Slots, p : Pats],
   [op : {"drop"}, x : Slots],
   [op : {"res"}, x : Slots, n : {2, 3}],
   [op : {"save"}, x : Slots, f : Dyn, over : BOOLEAN],
   [op : {"savenoname"}, x : Slots],
   [op : {"load"}, x : Slots, f : Dyn \union {"mp", "ns", "tr", "none"}],
   [op : {"clone", "xml"}, x : {"a"}, y : {"b"}],
   [op : {"clone", "xml"}, x : {"b"}, y : {"a"}]}
Init == scr = [x \in Slots |-> New] /\ files = [f \in Dyn |-> Absent] /\ hist = <<>>
Next == \E h \in Ops : Do(h) /\ hist' = Append(hist, h)
Bound == Len(hist) <= MaxOps
View == <<scr, files, Len(hist)>>
EmitEnd == Len(hist) = MaxOps => PrintT(ToJson(hist))
\* ---- what must hold -------------------------------------------------------
SizeOk == \A x \in Slots : scr[x].m = NoMask \/ Len(scr[x].m) = scr[x].n * scr[x].n
NoMaskKeepsAll == \A x \in Slots : scr[x].m = NoMask => \A k \in 1..(scr[x].n * scr[x].n) : Kept(scr[x], k)
FileOnlyWithMask == \A x \in Slots : scr[x].f # "" => scr[x].m # NoMask
\* one screen never changes the other, except through a copy
Isolated == [][\A x \in Slots : scr'[x] # scr[x] =>
                 LET h == hist'[Len(hist')] IN x = (IF h.op \in {"clone", "xml"} THEN h.y ELSE h.x)]_vars
\* a saved mask reads back as it was
RoundTrip == [][LET h == hist'[Len(hist')] IN
                 h.op = "save" /\ CanSave(h.x, h.f, h.over) => (files'[h.f].m = scr[h.x].m /\ files'[h.f].n = scr[h.x].n)]_vars
=============================================================================
