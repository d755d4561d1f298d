------------------------------- MODULE Units -------------------------------
(* Units.  A number is a monomial, given by its exponents: of the number the
   history started from, of ten, of c, of the constant from eV to Hz, and of
   the constants met in the units of the table.  Multiplying adds exponents,
   inverting changes their signs: conversions are exact.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, Ops
Tab == ndJsonDeserialize(IOEnv.UTAB)[1]
U == Tab.units               \* name -> [dim, vec]; dim: L, T, F, E, M, A (none of them) or X (unknown)
Names == DOMAIN U
D == Tab.size                \* number of exponents
Zero == [i \in 1..D |-> 0]
One(i) == [j \in 1..D |-> IF i = j THEN 1 ELSE 0]
Add(a, b) == [i \in 1..D |-> a[i] + b[i]]
Neg(a) == [i \in 1..D |-> 0 - a[i]]
Sub(a, b) == Add(a, Neg(b))
C == One(3)
EV == One(4)
Ten(j) == [i \in 1..D |-> IF i = 2 THEN j ELSE 0]
Err == <<>>
IsErr(x) == x = <<>>
Geo == {"geometrical", "geometrical_time"}
\* unit length of the metric: a power of ten metres; NoMetric: there is none
NoMetric == 99
UL(g) == Ten(g)
Has(g) == g # NoMetric
\* ---- what the functions give, g being the metric
RECURSIVE ToHerz(_, _), FromHerz(_, _)
ToHerz(x, u) == CASE u = "" -> x
                  [] U[u].dim = "F" -> Add(x, U[u].vec)
                  [] U[u].dim = "T" -> Neg(Add(x, U[u].vec))
                  [] U[u].dim = "L" -> Sub(C, Add(x, U[u].vec))
                  [] U[u].dim = "E" -> Add(Add(x, U[u].vec), EV)
                  [] OTHER -> Err
FromHerz(x, u) == CASE u = "" -> x
                    [] U[u].dim = "F" -> Sub(x, U[u].vec)
                    [] U[u].dim = "T" -> Sub(Neg(x), U[u].vec)
                    [] U[u].dim = "L" -> Sub(Sub(C, x), U[u].vec)
                    [] U[u].dim = "E" -> Sub(Sub(x, EV), U[u].vec)
                    [] OTHER -> Err
ToMeters(x, u, g) == CASE u = "" -> x
                       [] u = "geometrical" -> IF Has(g) THEN Add(x, UL(g)) ELSE Err
                       [] U[u].dim = "L" -> Add(x, U[u].vec)
                       [] U[u].dim = "T" -> Add(Add(x, U[u].vec), C)
                       [] U[u].dim \in {"F", "E"} -> Sub(C, ToHerz(x, u))
                       [] OTHER -> Err
FromMeters(x, u, g) == CASE u = "" -> x
                         [] u = "geometrical" -> IF Has(g) THEN Sub(x, UL(g)) ELSE Err
                         [] U[u].dim = "L" -> Sub(x, U[u].vec)
                         [] U[u].dim = "T" -> Sub(Sub(x, C), U[u].vec)
                         [] U[u].dim \in {"F", "E"} -> FromHerz(Sub(C, x), u)
                         [] OTHER -> Err
ToSeconds(x, u, g) == CASE u = "" -> x
                        [] u \in Geo -> IF Has(g) THEN Sub(Add(x, UL(g)), C) ELSE Err
                        [] U[u].dim = "L" -> Sub(Add(x, U[u].vec), C)
                        [] U[u].dim = "T" -> Add(x, U[u].vec)
                        [] U[u].dim = "F" -> Neg(Add(x, U[u].vec))
                        [] OTHER -> Err
FromSeconds(x, u, g) == CASE u = "" -> x
                          [] u \in Geo -> IF Has(g) THEN Sub(Add(x, C), UL(g)) ELSE Err
                          [] U[u].dim = "L" -> Sub(Add(x, C), U[u].vec)
                          [] U[u].dim = "T" -> Sub(x, U[u].vec)
                          [] U[u].dim = "F" -> Sub(Neg(x), U[u].vec)
                          [] OTHER -> Err
ToKilograms(x, u) == CASE u = "" -> x [] U[u].dim = "M" -> Add(x, U[u].vec) [] OTHER -> Err
FromKilograms(x, u) == CASE u = "" -> x [] U[u].dim = "M" -> Sub(x, U[u].vec) [] OTHER -> Err
Div(x, v) == IF IsErr(x) THEN Err ELSE Sub(x, v)
ToGeometrical(x, u, g) == IF u \in {"", "geometrical"} THEN x ELSE IF ~Has(g) \/ u \in Geo THEN Err ELSE Div(ToMeters(x, u, g), UL(g))
FromGeometrical(x, u, g) == IF u \in {"", "geometrical"} THEN x ELSE IF ~Has(g) \/ u \in Geo THEN Err ELSE FromMeters(Add(x, UL(g)), u, g)
ToGeometricalTime(x, u, g) == IF u \in {"", "geometrical_time"} THEN x ELSE IF ~Has(g) \/ u \in Geo THEN Err ELSE Div(ToSeconds(x, u, g), Sub(UL(g), C))
FromGeometricalTime(x, u, g) == IF u \in {"", "geometrical_time"} THEN x ELSE IF ~Has(g) \/ u \in Geo THEN Err ELSE FromSeconds(Add(x, Sub(UL(g), C)), u, g)
\* plain conversion between two units
Convert(x, a, b) == IF a = "" \/ b = "" THEN x
                    ELSE IF a \in Geo \/ b \in Geo \/ U[a].dim = "X" \/ U[b].dim = "X" THEN Err
                    ELSE IF U[a].dim = U[b].dim THEN Sub(Add(x, U[a].vec), U[b].vec)
                    ELSE IF {U[a].dim, U[b].dim} = {"T", "F"} THEN Sub(Neg(Add(x, U[a].vec)), U[b].vec)
                    ELSE Err
Base == [Meters |-> "m", Seconds |-> "s", Kilograms |-> "kg", Geometrical |-> "geometrical", GeometricalTime |-> "geometrical_time", Herz |-> "Hz"]
Functions == DOMAIN Base
To(f, x, u, g) == CASE f = "Meters" -> ToMeters(x, u, g) [] f = "Seconds" -> ToSeconds(x, u, g) [] f = "Kilograms" -> ToKilograms(x, u)
                    [] f = "Geometrical" -> ToGeometrical(x, u, g) [] f = "GeometricalTime" -> ToGeometricalTime(x, u, g) [] f = "Herz" -> ToHerz(x, u)
From(f, x, u, g) == CASE f = "Meters" -> FromMeters(x, u, g) [] f = "Seconds" -> FromSeconds(x, u, g) [] f = "Kilograms" -> FromKilograms(x, u)
                      [] f = "Geometrical" -> FromGeometrical(x, u, g) [] f = "GeometricalTime" -> FromGeometricalTime(x, u, g) [] f = "Herz" -> FromHerz(x, u)
\* ---- laws, checked on the table itself
X0 == One(1)
Masses == {0, 3, -2}
RoundTrip == \A f \in Functions, u \in Names, g \in Masses \cup {NoMetric} :
               LET a == To(f, X0, u, g) IN /\ (~IsErr(a) => From(f, a, u, g) = X0)
                                           /\ (IsErr(a) <=> IsErr(From(f, X0, u, g)))
Chained == \A a, b, c \in Names : LET x == Convert(X0, a, b) IN
               (~IsErr(x) /\ ~IsErr(Convert(x, b, c)) /\ b # "" /\ ~({a, c} = {""})) => (a # "" /\ c # "" => Convert(x, b, c) = Convert(X0, a, c))
Direct == \A f \in Functions, u \in Names, w \in Names, g \in Masses :
            LET a == To(f, X0, u, g) IN (~IsErr(a) /\ ~IsErr(Convert(X0, u, w)) /\ u # "" /\ w # "") => To(f, Convert(X0, u, w), w, g) = a
ASSUME Tab.laws => RoundTrip /\ Chained /\ Direct
\* ---- histories: a number in a unit, a metric that may change, properties that are set and read
VARIABLES unit, val, g,      \* the number at hand
          prop,              \* property -> value in its own unit, Err: not set
          hist
vars == <<unit, val, g, prop, hist>>
state == <<unit, val, g, prop>>
Props == DOMAIN Tab.props    \* property -> function whose base unit it is kept in
Init == unit = "m" /\ val = X0 /\ g = 0 /\ prop = [p \in Props |-> Err] /\ hist = <<>>
Small(x) == ~IsErr(x) /\ \A i \in 1..D : x[i] <= (IF i = 2 THEN 60 ELSE 1) /\ x[i] >= (IF i = 2 THEN -60 ELSE -1)
Log(e) == hist' = Append(hist, e)
Take(x, u) == IF IsErr(x) THEN UNCHANGED <<unit, val>> ELSE val' = x /\ unit' = u
DoTo(f) == Take(To(f, val, unit, g), Base[f]) /\ UNCHANGED <<g, prop>>
DoFrom(f, u) == Take(From(f, val, u, g), u) /\ UNCHANGED <<g, prop>>
DoConvert(u) == Take(Convert(val, unit, u), u) /\ UNCHANGED <<g, prop>>
Fresh(u) == unit' = u /\ val' = X0 /\ UNCHANGED <<g, prop>>
Mass(j) == g' = j /\ UNCHANGED <<unit, val, prop>>
SetProp(p) == (LET x == To(Tab.props[p], val, unit, g) IN prop' = IF IsErr(x) THEN prop ELSE [prop EXCEPT ![p] = x]) /\ UNCHANGED <<unit, val, g>>
ReadProp(p, u) == ~IsErr(prop[p]) /\ Take(From(Tab.props[p], prop[p], u, g), IF u = "" THEN Base[Tab.props[p]] ELSE u) /\ UNCHANGED <<g, prop>>
Step == \/ "to" \in Ops /\ \E f \in Functions : (IsErr(To(f, val, unit, g)) \/ Small(To(f, val, unit, g))) /\ DoTo(f) /\ Log([op |-> "to", f |-> f])
        \/ "from" \in Ops /\ \E f \in Functions, u \in Names : unit = Base[f] /\ (IsErr(From(f, val, u, g)) \/ Small(From(f, val, u, g))) /\ u # "" /\ DoFrom(f, u) /\ Log([op |-> "from", f |-> f, u |-> u])
        \/ "convert" \in Ops /\ \E u \in Names : u # "" /\ (IsErr(Convert(val, unit, u)) \/ Small(Convert(val, unit, u))) /\ DoConvert(u) /\ Log([op |-> "convert", u |-> u])
        \/ "fresh" \in Ops /\ \E u \in Names : u # "" /\ U[u].dim # "X" /\ u # unit /\ Fresh(u) /\ Log([op |-> "fresh", u |-> u])
        \/ "mass" \in Ops /\ \E j \in Masses : j # g /\ Mass(j) /\ Log([op |-> "mass", j |-> j])
        \/ "set" \in Ops /\ \E p \in Props : SetProp(p) /\ Log([op |-> "set", p |-> p])
        \/ "read" \in Ops /\ \E p \in Props, u \in Names : ReadProp(p, u) /\ Small(val') /\ Log([op |-> "read", p |-> p, u |-> u])
Next == Len(hist) < MaxOps /\ Step
View == state
Emit == PrintT(ToJson(hist))
EmitEnd == Len(hist) = MaxOps => Emit
=============================================================================
