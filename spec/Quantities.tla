----------------------------- MODULE Quantities -----------------------------
(* The quantities a Scenery is asked for: set by a list of names with units   *)
(* or by a set of flags, read as names, flags and counts, and rendered.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxLen
Scalars == {"Intensity", "EmissionTime", "MinDistance", "FirstDistMin", "Redshift", "NbCrossEqPlane", "User1", "User2", "User3", "User4", "User5"}
Stokes == {"SpectrumStokesQ", "SpectrumStokesU", "SpectrumStokesV"}
Spectral == Stokes \union {"Spectrum", "BinSpectrum"}
All == Scalars \union Spectral \union {"ImpactCoords"}
Names == All \union {"SpectrumStokes"}
Means(n) == IF n = "SpectrumStokes" THEN Stokes \union {"Spectrum"} ELSE {n}
Group(n) == CASE n = "Intensity" -> "I" [] n = "BinSpectrum" -> "B" [] n \in Spectral \union {"SpectrumStokes"} -> "S" [] OTHER -> "none"
Groups == {"I", "S", "B"}
UnitsOf(g) == CASE g = "B" -> {"", "cgs"} [] g \in {"I", "S"} -> {"", "cgs", "jy", "pix"} [] OTHER -> {""}
Default == {"Intensity", "Redshift"}       \* what the object of the harness asks for
VARIABLES q, u, polar, hist, draft
vars == <<q, u, polar, hist, draft>>
Eff(x) == IF x = {} THEN Default ELSE x
\* an item of a list is [n |-> name, u |-> unit]; every name of a group has the same unit
ItemOk(i) == i.n \in Names /\ i.u \in UnitsOf(Group(i.n))
ListOk(L) == \A k \in 1..Len(L) : ItemOk(L[k])
UnitIn(L, g) == IF \E k \in 1..Len(L) : Group(L[k].n) = g THEN (CHOOSE x \in {"", "cgs", "jy", "pix"} : \E k \in 1..Len(L) : Group(L[k].n) = g /\ L[k].u = x) ELSE ""
SetList(L) == IF ListOk(L)
              THEN /\ q' = UNION {Means(L[k].n) : k \in 1..Len(L)}
                   /\ u' = [g \in Groups |-> UnitIn(L, g)]
                   /\ polar' = (polar \/ q' \intersect Stokes # {})
              ELSE UNCHANGED <<q, u, polar>>
SetFlags(S) == q' = S /\ UNCHANGED u /\ polar' = (polar \/ S \intersect Stokes # {})
Copy == UNCHANGED <<q, u, polar>>           \* go on with a clone
Again == q' = Eff(q) /\ u' = [g \in Groups |-> ""] /\ polar' = (polar \/ q' \intersect Stokes # {})  \* set the list that is read
Count(S, T) == Cardinality(S \intersect T)
\* impact coordinates and polarisation exclude each other
CanRender(x, p) == ~("ImpactCoords" \in Eff(x) /\ p)
UnitOf(n, uu) == IF Group(n) = "none" THEN "" ELSE uu[Group(n)]
\* lists to try: random subsets are enough, all names and all units are reached
Items == {[n |-> n, u |-> x] : n \in Names, x \in {"", "cgs", "jy", "pix"}}
Good == {i \in Items : ItemOk(i)}
BadItems == {[n |-> n, u |-> "cgs"] : n \in {"EmissionTime", "User1", "ImpactCoords"}} \union {[n |-> n, u |-> "wrong"] : n \in {"Intensity", "Spectrum", "BinSpectrum", "SpectrumStokes"}}
            \union {[n |-> n, u |-> "open"] : n \in {"Intensity"}} \union {[n |-> n, u |-> ""] : n \in {"intensity", "Nothing", "Spectrum2", "Intensity]"}}
Consistent(L) == \A j, k \in 1..Len(L) : Group(L[j].n) = Group(L[k].n) => L[j].u = L[k].u
Do(h) == CASE h.op = "list" -> SetList(h.L)
           [] h.op = "flags" -> SetFlags(h.S)
           [] h.op = "clone" -> Copy
           [] h.op = "again" -> Again
           [] h.op = "empty" -> SetList(<<>>)
Init == draft = <<>> /\ q = {} /\ u = [g \in Groups |-> ""] /\ polar = FALSE /\ hist = <<>>
\* exhaustive part: lists of one or two items, refused ones included
Small == {L \in UNION {[1..n -> Good \union BadItems] : n \in 1..MaxLen} : Consistent(L)}
Next == /\ UNCHANGED draft /\ Len(hist) < MaxOps
        /\ \/ \E L \in Small : Do([op |-> "list", L |-> L]) /\ hist' = Append(hist, [op |-> "list", L |-> L])
           \/ \E o \in {"clone", "again", "empty"} : Do([op |-> o]) /\ hist' = Append(hist, [op |-> o])
           \/ \E S \in SUBSET {"Intensity", "Spectrum", "SpectrumStokesU", "User5"} : Do([op |-> "flags", S |-> S]) /\ hist' = Append(hist, [op |-> "flags", S |-> S])
\* long lists, one item at a time (for random walks)
Grow(i) == Len(draft) < 8 /\ Consistent(Append(draft, i)) /\ draft' = Append(draft, i) /\ UNCHANGED <<q, u, polar, hist>>
RNext == \/ \E i \in Good : Grow(i)
         \/ \E i \in BadItems : Len(draft) % 3 = 2 /\ Grow(i)
         \/ \E n \in 1..30 : Do([op |-> "list", L |-> draft]) /\ hist' = Append(hist, [op |-> "list", L |-> draft]) /\ draft' = <<>>
         \/ \E o \in {"clone", "again", "empty"} : Do([op |-> o]) /\ hist' = Append(hist, [op |-> o]) /\ UNCHANGED draft
         \/ \E S \in SUBSET {"Intensity", "Spectrum", "SpectrumStokesU", "User5"} : S # {} /\ Do([op |-> "flags", S |-> S]) /\ hist' = Append(hist, [op |-> "flags", S |-> S]) /\ UNCHANGED draft
Bound == Len(hist) <= MaxOps
View == <<q, u, polar, Len(hist)>>
EmitEnd == Len(hist) = MaxOps => PrintT(ToJson(hist))
\* ---- what must hold -------------------------------------------------------
TypeOk == q \subseteq All /\ \A g \in Groups : u[g] \in UnitsOf(g)
Counts == Count(Eff(q), Scalars) + Count(Eff(q), Spectral) + Count(Eff(q), {"ImpactCoords"}) = Cardinality(Eff(q))
Polarised == q \intersect Stokes # {} => polar
RefusedChangesNothing == [][hist' # hist => LET h == hist'[Len(hist')] IN (h.op = "list" => (ListOk(h.L) \/ <<q, u, polar>> = <<q', u', polar'>>))]_vars
=============================================================================
