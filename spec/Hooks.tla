------------------------------- MODULE Hooks -------------------------------
(* Change notification between objects (Gyoto::Hook).                       *)
(* reg[t] is the bag of registrations with teller t, as a function from     *)
(* listeners to the number of registrations.  A relay is a listener that is *)
(* itself a teller (as a compound spectrometer is): being told makes it     *)
(* announce in turn.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Tellers, Listeners, MaxReg
\* relays: RelayOf[l] = the teller that listener l announces for, or 0
RelayOf(l) == IF l > 100 THEN l - 100 ELSE 0
VARIABLES reg, hist
vars == <<reg, hist>>
None == [l \in Listeners |-> 0]
Init == reg = [t \in Tellers |-> None] /\ hist = <<>>

Total(t) == LET RECURSIVE S(_)
                S(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN reg[t][x] + S(s \ {x})
            IN S(Listeners)

(* deliveries caused by teller t announcing: a function (teller, listener) -> count. *)
(* fuel bounds the recursion; acyclicity is an invariant of the model.               *)
RECURSIVE Deliver(_, _, _)
Deliver(t, mult, fuel) ==
  LET own == [p \in Tellers \X Listeners |-> IF p[1] = t THEN mult * reg[t][p[2]] ELSE 0]
      rel == {l \in Listeners : RelayOf(l) # 0 /\ reg[t][l] > 0}
      RECURSIVE Add(_, _)
      Add(s, acc) == IF s = {} THEN acc
                     ELSE LET l == CHOOSE y \in s : TRUE
                              d == Deliver(RelayOf(l), mult * reg[t][l], fuel - 1)
                          IN Add(s \ {l}, [p \in Tellers \X Listeners |-> acc[p] + d[p]])
  IN IF fuel = 0 THEN own ELSE Add(rel, own)
Delivered(t) == Deliver(t, 1, Cardinality(Tellers))

Reaches(t) == \* tellers reachable from t through relays
  LET RECURSIVE R(_, _)
      R(s, n) == IF n = 0 THEN s ELSE R(s \cup {RelayOf(l) : l \in {x \in Listeners : RelayOf(x) # 0 /\ \E u \in s : reg[u][x] > 0}}, n - 1)
  IN R({t}, Cardinality(Tellers))

Hook(t, l) == /\ Total(t) < MaxReg
              /\ (RelayOf(l) # 0 => t \notin Reaches(RelayOf(l)))    \* users build no cycles
              /\ reg' = [reg EXCEPT ![t][l] = @ + 1]
Unhook(t, l) == reg' = [reg EXCEPT ![t][l] = 0]
Tell(t) == UNCHANGED reg
\* u becomes a copy of t (u is rebuilt by the copy constructor): nobody is registered with a copy
Copy(t, u) == t # u /\ reg' = [reg EXCEPT ![u] = None]
\* u is destroyed and built anew
Renew(u) == reg' = [reg EXCEPT ![u] = None]

Log(e) == hist' = Append(hist, e)
Next == \/ \E t \in Tellers, l \in Listeners : Hook(t, l) /\ Log(<<"hook", t, l>>)
        \/ \E t \in Tellers, l \in Listeners : Unhook(t, l) /\ Log(<<"unhook", t, l>>)
        \/ \E t \in Tellers : Tell(t) /\ Log(<<"tell", t, 0>>)
        \/ \E t, u \in Tellers : Copy(t, u) /\ Log(<<"copy", t, u>>)
        \/ \E u \in Tellers : Renew(u) /\ Log(<<"renew", u, 0>>)
Spec == Init /\ [][Next]_vars
View == reg

(* Properties of the notification mechanism, checked on the specification *)
TypeOK == reg \in [Tellers -> [Listeners -> 0..MaxReg]]
\* each direct listener is told once per registration
OncePerRegistration == \A t \in Tellers : \A l \in Listeners : Delivered(t)[<<t, l>>] = reg[t][l]
\* nobody is told who is not registered with a teller reached by the announcement
OnlyRegistered == \A t \in Tellers : \A p \in Tellers \X Listeners :
                     Delivered(t)[p] > 0 => (reg[p[1]][p[2]] > 0 /\ p[1] \in Reaches(t))
Acyclic == \A l \in Listeners : RelayOf(l) # 0 => \A t \in Tellers : reg[t][l] > 0 => t \notin Reaches(RelayOf(l))
Gone == [][\A t \in Tellers, l \in Listeners : (reg[t][l] > 0 /\ reg'[t][l] = 0) => reg'[t] = [reg[t] EXCEPT ![l] = 0] \/ reg'[t] = None]_vars
Emit == PrintT(ToJson(hist'))
Quiet == Len(hist) < 40
EmitEnd == Len(hist) < 40 \/ PrintT(ToJson(hist))
=============================================================================
