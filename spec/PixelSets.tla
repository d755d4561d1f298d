----------------------------- MODULE PixelSets -----------------------------
(* Iteration over pixel selections: begin, advance, read, size.             *)
EXTENDS PixelSeq, FiniteSets, TLC, Json
CONSTANTS MaxV, MaxStep, MaxLen
VARIABLES sel, pos, hist
vars == <<sel, pos, hist>>
Lists(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
OneD == [k : {"R"}, a : 0..MaxV, b : 0..MaxV, d : 0..MaxStep] \cup [k : {"I"}, v : Lists(0..2)]
        \cup [k : {"A"}, v : Lists(1..2)] \cup [k : {"P"}, x : 1..2, n : 0..MaxLen]
PixD == {s \in OneD : s.k \in {"R", "I"}}
Small == {s \in OneD : (s.k = "R" => s.a \in 1..2 /\ s.b \in {1, 4} /\ s.d \in 1..2) /\ (s.k = "I" => \A i \in 1..Len(s.v) : s.v[i] > 0)}
SmallPix == Small \cap PixD
TwoD == [k : {"G"}, i : SmallPix, j : SmallPix] \cup [k : {"B"}, i : Small, j : Small] \cup {[k |-> "E"]}
IsTwo(s) == s.k \in {"G", "B", "E"}
Points(s) == IF IsTwo(s) THEN Seq2(s) ELSE Seq1(s)
Refused(s) == IF IsTwo(s) THEN Refused2(s) ELSE Refused1(s)
N(s) == Len(Points(s))
Nothing == [k |-> "none"]
Init == sel = Nothing /\ pos = 0 /\ hist = <<>>
Make(s) == sel = Nothing /\ (IF Refused(s) THEN sel' = [k |-> "refused"] /\ pos' = 0 ELSE sel' = s /\ pos' = 1)
Usable == sel.k \notin {"none", "refused"}
Advance == Usable /\ pos' = (IF pos <= N(sel) THEN pos + 1 ELSE pos) /\ UNCHANGED sel
Begin == Usable /\ pos' = 1 /\ UNCHANGED sel
Valid(s, p) == p <= N(s)
Log(e) == hist' = Append(hist, e)
Next == \/ \E s \in OneD \cup TwoD : Make(s) /\ Log([op |-> "make", s |-> s])
        \/ Advance /\ Log([op |-> "inc"])
        \/ Begin /\ Log([op |-> "begin"])
Walks == Len(hist) <= 5
\* what iterating from the beginning to the end yields, against the documented sequence
RECURSIVE Collect(_, _)
Collect(s, p) == IF Valid(s, p) THEN <<Points(s)[p]>> \o Collect(s, p + 1) ELSE <<>>
EnumeratesAll == Usable => /\ Collect(sel, 1) = Points(sel)
                           /\ (sel.k = "G" => N(sel) = Len(Seq1(sel.i)) * Len(Seq1(sel.j)))
                           /\ pos \in 1..(N(sel) + 1)
Start == Len(hist) <= 1
View == <<sel, pos>>
EmitMake == (hist' = <<>>) \/ (hist = <<>>  /\ PrintT(ToJson(hist'[1].s)))
=============================================================================
