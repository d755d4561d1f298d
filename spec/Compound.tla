------------------------------ MODULE Compound ------------------------------
(* Compound astronomical objects and metrics: ordered collections of parts.
   Compounds "c" and "d" ("d" appears as a clone of "c").  Parts are numbered
   objects with a label (what they are); metrics of the parts are numbered
   too, 0 being none.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxOps, Ops, Which          \* Which: "astrobj" or "metric"
Tab == ndJsonDeserialize(IOEnv.CTAB)[1]
NP == Tab.parts                       \* parts there are in the beginning: labels 1..NP
NG == Tab.metrics                     \* metrics there are in the beginning
Coord(lb) == Tab.coord[lb]            \* coordinate kind of a part that is a metric
VARIABLES label,  \* sequence: part -> label
          pm,     \* sequence: part -> metric
          ml,     \* sequence: metric -> label
          seqs,   \* compound -> sequence of parts
          cm,     \* compound -> metric
          alive,  \* whether "d" exists
          hist
state == <<label, pm, ml, seqs, cm, alive>>
vars == <<label, pm, ml, seqs, cm, alive, hist>>
Init == /\ label = [i \in 1..NP |-> i] /\ pm = [i \in 1..NP |-> 0] /\ ml = [i \in 1..NG |-> i]
        /\ seqs = [o \in {"c", "d"} |-> <<>>] /\ cm = [o \in {"c", "d"} |-> 0] /\ alive = FALSE /\ hist = <<>>
Objs == IF alive THEN {"c", "d"} ELSE {"c"}
Parts(o) == {seqs[o][i] : i \in 1..Len(seqs[o])}
\* ---- what a compound is
Refused(o, p) == Which = "metric" /\ seqs[o] # <<>> /\ Coord(label[p]) # Coord(label[seqs[o][1]])
CoordOf(o) == IF seqs[o] = <<>> THEN "none" ELSE Coord(label[seqs[o][1]])
Labels(o) == [i \in 1..Len(seqs[o]) |-> label[seqs[o][i]]]
\* ---- transitions
Append_(o, p) == /\ ~Refused(o, p)
                 /\ seqs' = [seqs EXCEPT ![o] = Append(@, p)]
                 /\ IF Which = "metric" THEN UNCHANGED <<pm, cm>>
                    ELSE IF cm[o] # 0 THEN pm' = [pm EXCEPT ![p] = cm[o]] /\ UNCHANGED cm
                    ELSE cm' = [cm EXCEPT ![o] = pm[p]] /\ UNCHANGED pm
                 /\ UNCHANGED <<label, ml, alive>>
Refuse == UNCHANGED state
Remove_(o, i) == seqs' = [seqs EXCEPT ![o] = RemoveAt(@, i)] /\ UNCHANGED <<label, pm, ml, cm, alive>>
Assign(o, i, p) == seqs' = [seqs EXCEPT ![o][i] = p] /\ UNCHANGED <<label, pm, ml, cm, alive>>
SetMetric(o, g) == /\ cm' = [cm EXCEPT ![o] = g]
                   /\ pm' = [p \in 1..Len(pm) |-> IF p \in Parts(o) THEN g ELSE pm[p]]
                   /\ UNCHANGED <<label, ml, seqs, alive>>
PartMetric(p, g) == pm' = [pm EXCEPT ![p] = g] /\ UNCHANGED <<label, ml, seqs, cm, alive>>
\* parts of a clone are its own; when the compound has a metric they all share the clone of that metric
Clone == LET n == Len(seqs["c"])
             one == cm["c"] # 0
             src(i) == pm[seqs["c"][i]]
         IN /\ label' = label \o [i \in 1..n |-> label[seqs["c"][i]]]
            /\ IF one THEN ml' = Append(ml, ml[cm["c"]]) /\ pm' = pm \o [i \in 1..n |-> Len(ml) + 1]
               ELSE /\ ml' = ml \o [i \in 1..n |-> IF src(i) = 0 THEN 0 ELSE ml[src(i)]]
                    /\ pm' = pm \o [i \in 1..n |-> IF src(i) = 0 THEN 0 ELSE Len(ml) + i]
            /\ seqs' = [seqs EXCEPT !["d"] = [i \in 1..n |-> Len(label) + i]]
            /\ cm' = [cm EXCEPT !["d"] = IF one THEN Len(ml) + 1 ELSE 0]
            /\ alive' = TRUE
Drop == alive' = FALSE /\ seqs' = [seqs EXCEPT !["d"] = <<>>] /\ cm' = [cm EXCEPT !["d"] = 0] /\ UNCHANGED <<label, pm, ml>>
\* ---- exploration
Log(e) == hist' = Append(hist, e)
Mine == 1..NP
Step == \/ "append" \in Ops /\ \E o \in Objs, p \in Mine : Len(seqs[o]) < 4 /\ (IF Refused(o, p) THEN Refuse ELSE Append_(o, p)) /\ Log([op |-> "append", o |-> o, p |-> p])
        \/ "remove" \in Ops /\ \E o \in Objs : \E i \in 1..(Len(seqs[o]) + 1) : (IF i > Len(seqs[o]) THEN Refuse ELSE Remove_(o, i)) /\ Log([op |-> "remove", o |-> o, i |-> i])
        \/ "assign" \in Ops /\ \E o \in Objs : \E i \in 1..(Len(seqs[o]) + 1), p \in {1, 2} :
              /\ ((Which = "metric" /\ i <= Len(seqs[o])) => Coord(p) = CoordOf(o))
              /\ (IF i > Len(seqs[o]) THEN Refuse ELSE Assign(o, i, p)) /\ Log([op |-> "assign", o |-> o, i |-> i, p |-> p])
        \/ "setmetric" \in Ops /\ \E o \in Objs, g \in 0..NG : SetMetric(o, g) /\ Log([op |-> "setmetric", o |-> o, g |-> g])
        \/ "partmetric" \in Ops /\ \E p \in Mine, g \in 0..NG : PartMetric(p, g) /\ Log([op |-> "partmetric", p |-> p, g |-> g])
        \/ "clone" \in Ops /\ Len(label) < 12 /\ Clone /\ Log([op |-> "clone"])
        \/ "drop" \in Ops /\ alive /\ Drop /\ Log([op |-> "drop"])
Next == Len(hist) < MaxOps /\ Step
View == state
\* a compound and its clone share no part through cloning; the parts of a compound whose metric was set last share it
TypeOK == /\ \A o \in {"c", "d"} : Parts(o) \subseteq 1..Len(label) /\ cm[o] \in 0..Len(ml)
          /\ Len(pm) = Len(label)
Own == {p \in Parts("d") : p > NP} \cap Parts("c") = {}
OneCoord == Which = "metric" => \A o \in {"c", "d"} : \A i, j \in 1..Len(seqs[o]) : Coord(label[seqs[o][i]]) = Coord(label[seqs[o][j]])
\* a metric set on the compound is that of every part until a part is given another one or replaced
Unified == [][\A o \in {"c", "d"} : (cm'[o] # cm[o] /\ cm'[o] # 0 /\ Len(seqs'[o]) = Len(seqs[o])) => \A p \in Parts(o)' : pm'[p] = cm'[o]]_vars
Emit == PrintT(ToJson(hist))
EmitEnd == Len(hist) = MaxOps => Emit
=============================================================================
