------------------------------ MODULE SmartPtr ------------------------------
(* Reference-counted ownership (Gyoto::SmartPointer / SmartPointee).          *)
(* Roots are smart-pointer variables of the user; every object additionally   *)
(* owns one smart pointer (child).  Root 3 has the derived type, so assigning *)
(* a pointer to a base object to it gives null.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Roots, Objs, Derived      \* Derived: the roots of derived type
VARIABLES pt, child, kind, died, err, hist
vars == <<pt, child, kind, died, err, hist>>
st == <<pt, child, kind>>
Init == /\ pt = [r \in Roots |-> 0] /\ child = [o \in Objs |-> 0] /\ kind = [o \in Objs |-> "-"]
        /\ died = {} /\ err = FALSE /\ hist = <<>>
Alive(k) == {o \in Objs : k[o] # "-"}
Count(p, c, k, o) == Cardinality({r \in Roots : p[r] = o}) + Cardinality({x \in Alive(k) : c[x] = o})
(* remove, again and again, the objects nobody refers to *)
RECURSIVE Sweep(_, _, _)
Sweep(p, c, k) == LET z == {o \in Alive(k) : Count(p, c, k, o) = 0}
                  IN IF z = {} THEN <<c, k>>
                     ELSE Sweep(p, [o \in Objs |-> IF o \in z THEN 0 ELSE c[o]], [o \in Objs |-> IF o \in z THEN "-" ELSE k[o]])
Settle(p, c, k) == LET s == Sweep(p, c, k)
                   IN /\ pt' = p /\ child' = s[1] /\ kind' = s[2] /\ err' = FALSE
                      /\ died' = Alive(k) \ Alive(s[2])
Fresh == CHOOSE o \in Objs : kind[o] = "-" /\ \A x \in Objs : x < o => kind[x] # "-"
CanNew == \E o \in Objs : kind[o] = "-"
Fit(r, o, k) == IF o # 0 /\ r \in Derived /\ k[o] # "D" THEN 0 ELSE o

New(r, k) == /\ CanNew /\ (r \in Derived => k = "D")
             /\ LET o == Fresh k2 == [kind EXCEPT ![o] = k] IN Settle([pt EXCEPT ![r] = o], child, k2)
\* r = q in every form the language offers: smart, const smart, plain pointer, copy construction, cast
Assign(r, q) == Settle([pt EXCEPT ![r] = Fit(r, pt[q], kind)], child, kind)
Null(r) == Settle([pt EXCEPT ![r] = 0], child, kind)
SetChild(r, q) == IF pt[r] = 0 THEN err' = TRUE /\ died' = {} /\ UNCHANGED st
                  ELSE Settle(pt, [child EXCEPT ![pt[r]] = pt[q]], kind)
TakeChild(r, q) == IF pt[q] = 0 THEN err' = TRUE /\ died' = {} /\ UNCHANGED st
                   ELSE Settle([pt EXCEPT ![r] = Fit(r, child[pt[q]], kind)], child, kind)
\* *q copied by value into *r (child pointer included): identities and reference counts of r's target stay
ValueCopy(r, q) == IF pt[r] = 0 \/ pt[q] = 0 THEN err' = TRUE /\ died' = {} /\ UNCHANGED st
                   ELSE Settle(pt, [child EXCEPT ![pt[r]] = child[pt[q]]], kind)
\* r = new object copy-constructed from *q
Clone(r, q) == IF pt[q] = 0 THEN err' = TRUE /\ died' = {} /\ UNCHANGED st
               ELSE /\ CanNew /\ (r \in Derived => kind[pt[q]] = "D")
                    /\ LET o == Fresh IN Settle([pt EXCEPT ![r] = o], [child EXCEPT ![o] = child[pt[q]]], [kind EXCEPT ![o] = kind[pt[q]]])
Forms == {"smart", "const", "raw", "ctor", "temp"}
Log(e) == hist' = Append(hist, e)
SameType(r, q) == (r \in Derived) <=> (q \in Derived)
Next == \/ \E r \in Roots, k \in {"B", "D"} : New(r, k) /\ Log(<<"new", r, 0, k>>)
        \/ \E r, q \in Roots, f \in Forms : (SameType(r, q) \/ f \in {"ctor", "temp"}) /\ Assign(r, q) /\ Log(<<"assign", r, q, f>>)
        \/ \E r \in Roots, f \in {"null", "dtor"} : Null(r) /\ Log(<<"null", r, 0, f>>)
        \/ \E r, q \in Roots : SetChild(r, q) /\ Log(<<"setchild", r, q, "smart">>)
        \/ \E r, q \in Roots, f \in Forms : (r \notin Derived \/ f \in {"ctor", "temp"}) /\ TakeChild(r, q) /\ Log(<<"takechild", r, q, f>>)
        \/ \E r, q \in Roots : (pt[r] # 0 /\ pt[q] # 0 => kind[pt[r]] = kind[pt[q]]) /\ ValueCopy(r, q) /\ Log(<<"valcopy", r, q, "-">>)
        \/ \E r, q \in Roots : Clone(r, q) /\ Log(<<"clone", r, q, "-">>)
Spec == Init /\ [][Next]_vars
View == st
(* Properties *)
RefsAlive == /\ \A r \in Roots : pt[r] # 0 => kind[pt[r]] # "-"
             /\ \A o \in Alive(kind) : child[o] # 0 => kind[child[o]] # "-"
NoOrphan == \A o \in Alive(kind) : Count(pt, child, kind, o) > 0
Typed == \A r \in Derived : pt[r] # 0 => kind[pt[r]] = "D"
Emit == PrintT(ToJson(hist'))
Quiet == Len(hist) < 60
EmitEnd == Len(hist) < 60 \/ PrintT(ToJson(hist))
=============================================================================
