---------------------------- MODULE ObjectModel ----------------------------
(* The property-based object model of Gyoto.

   A heap of objects.  An object has a kind and, for each property of that
   kind, a current value.  Values are tokens: a literal, the name of a shared
   ("environment") object, a private copy of such an object ("m1@0.7": a copy
   made when the mutable parameter of m1 was 0.7), "~" for the default and
   "auto" for a value computed from another property.

   Setting a property changes that property only, except for the documented
   derived ones, which take the value listed ("auto": computed).  Copying an object (clone, or XML written
   and read back) copies the values, and everything it refers to, at that
   moment.  A refused request changes nothing.  What an object computes is a
   function of Config: the values of its properties and of what it refers to. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen,     \* operations per behaviour
          Ops,        \* which operations are explored
          NSlots

Table == JsonDeserialize(IOEnv.KINDS)
Kinds == Table.kinds                    \* sequence of kinds
EnvObj == Table.env                     \* name |-> sequence of values of its mutable parameter
EnvNames == DOMAIN EnvObj
Slots == {"a", "b", "c"}
Slot == SubSeq(<<"a", "b", "c">>, 1, NSlots)

VARIABLES kind,    \* index in Kinds
          group,   \* which settings are explored (index in Kinds[kind].groups)
          slot,    \* Slots -> [live, v]
          env,     \* EnvNames -> current value of the mutable parameter
          todo,    \* settings still to explore
          hist

vars == <<kind, group, slot, env, todo, hist>>
K == Kinds[kind]
PropNames(k) == {k.props[i].n : i \in 1..Len(k.props)}
RefProps(k) == {k.props[i].n : i \in {j \in 1..Len(k.props) : k.props[j].ref}}
IsRef(k, p) == \E i \in 1..Len(k.props) : k.props[i].n = p /\ k.props[i].ref
Base(k) == [p \in PropNames(k) |-> k.props[CHOOSE i \in 1..Len(k.props) : k.props[i].n = p].base]
DerivedOf(k, p) == LET d == {i \in 1..Len(k.derived) : k.derived[i][1] = p} IN {k.derived[i][2] : i \in d}
DerivedVal(k, p, q) == k.derived[CHOOSE i \in 1..Len(k.derived) : k.derived[i][1] = p /\ k.derived[i][2] = q][3]
Dead == [live |-> FALSE, v |-> <<>>]

\* ---- the transition functions, shared with the trace specification --------
SetVal(k, v, p, x) == [q \in PropNames(k) |-> IF q = p THEN x ELSE IF q \in DerivedOf(k, p) THEN DerivedVal(k, p, q) ELSE v[q]]
Frozen(en, x) == IF x \in EnvNames THEN x \o "@" \o en[x] ELSE x
Copy(k, en, v) == [q \in PropNames(k) |-> IF IsRef(k, q) THEN Frozen(en, v[q]) ELSE v[q]]
\* the configuration that determines everything the object does: properties in table order, explicit ones only
Config(k, en, v) == LET full == [i \in 1..Len(k.props) |-> <<k.props[i].n, IF k.props[i].ref THEN Frozen(en, v[k.props[i].n]) ELSE v[k.props[i].n]>>]
                    IN SelectSeq(full, LAMBDA x : x[2] \notin {"~", "auto"})

Init == /\ kind \in 1..Len(Kinds)
        /\ group \in 1..Len(Kinds[kind].groups)
        /\ todo = {Kinds[kind].groups[group][i] : i \in 1..Len(Kinds[kind].groups[group])}
        /\ slot = [s \in Slots |-> IF s = "a" THEN [live |-> TRUE, v |-> Base(Kinds[kind])] ELSE Dead]
        /\ env = [e \in EnvNames |-> EnvObj[e][1]]
        /\ hist = <<[op |-> "init", kind |-> Kinds[kind].name, group |-> group]>>

Log(r) == hist' = Append(hist, r)
Live == {s \in Slots : slot[s].live}
Set(s, t) == /\ "set" \in Ops /\ t \in todo /\ slot[s].live
             /\ slot[s].v[t[1]] # t[2]
             /\ slot' = [slot EXCEPT ![s].v = SetVal(K, slot[s].v, t[1], t[2])]
             /\ todo' = todo \ {t}
             /\ Log([op |-> "set", s |-> s, p |-> t[1], x |-> t[2]])
             /\ UNCHANGED <<kind, group, env>>
\* an environment object the object currently refers to changes
Mutate(e, i) == /\ "mut" \in Ops /\ K.mut
                /\ \E s \in Live : \E p \in RefProps(K) : slot[s].v[p] = e
                /\ EnvObj[e][i] # env[e]
                /\ \A j \in 1..Len(hist) : (hist[j].op = "mut" => hist[j].e # e)
                /\ env' = [env EXCEPT ![e] = EnvObj[e][i]]
                /\ Log([op |-> "mut", e |-> e, x |-> EnvObj[e][i]])
                /\ UNCHANGED <<kind, group, slot, todo>>
\* the private copy an object holds of something it refers to is changed through that object
OwnNames == UNION {{<<e, i, e \o "@" \o EnvObj[e][i]>> : i \in 1..Len(EnvObj[e])} : e \in EnvNames}
OwnOf(x) == {ei \in OwnNames : ei[3] = x}
MutOwn(s, p, e, x) == /\ slot[s].live
                      /\ \A j \in 1..Len(hist) : (hist[j].op = "own" => hist[j].p # p)
                      /\ slot' = [slot EXCEPT ![s].v[p] = e \o "@" \o x]
                      /\ Log([op |-> "own", s |-> s, p |-> p, e |-> e, x |-> x])
                      /\ UNCHANGED <<kind, group, env, todo>>
CopyTo(s, t, how) == /\ how \in Ops /\ slot[s].live /\ s # t /\ ~slot[t].live
                     /\ slot' = [slot EXCEPT ![t] = [live |-> TRUE, v |-> Copy(K, env, slot[s].v)]]
                     /\ Log([op |-> how, s |-> s, t |-> t])
                     /\ UNCHANGED <<kind, group, env, todo>>
Drop(s) == /\ "del" \in Ops /\ slot[s].live /\ Cardinality(Live) > 1
           /\ slot' = [slot EXCEPT ![s] = Dead]
           /\ Log([op |-> "del", s |-> s])
           /\ UNCHANGED <<kind, group, env, todo>>
\* a request that must be refused
Bad(s, i) == /\ "bad" \in Ops /\ slot[s].live
             /\ \A j \in 1..Len(hist) : (hist[j].op = "bad" => hist[j].i # i)
             /\ Log([op |-> "bad", s |-> s, i |-> i])
             /\ UNCHANGED <<kind, group, slot, env, todo>>
Next == \/ \E s \in Live : \E t \in todo : Set(s, t)
        \/ \E e \in EnvNames : \E i \in 1..Len(EnvObj[e]) : Mutate(e, i)
        \/ "own" \in Ops /\ K.mut /\ \E s \in Live : \E p \in RefProps(K) : \E ei \in OwnOf(slot[s].v[p]) : \E i \in 1..Len(EnvObj[ei[1]]) \ {ei[2]} : MutOwn(s, p, ei[1], EnvObj[ei[1]][i])
        \/ \E s, t \in {Slot[i] : i \in 1..NSlots} : \E how \in {"clone", "xml"} : CopyTo(s, t, how)
        \/ \E s \in Live : Drop(s)
        \/ \E s \in Live : \E i \in 1..Len(K.badgroups[group]) : Bad(s, K.badgroups[group][i])
Spec == Init /\ [][Next]_vars

\* ---- properties of the model ------------------------------------------------
TypeOK == \A s \in Slots : slot[s].live => DOMAIN slot[s].v = PropNames(K)
\* an operation on one object does not show through another one; only a change of a shared object does
Independence == [][\A s \in Slots : (slot[s].live /\ slot'[s].live) =>
                     LET h == hist'[Len(hist')] IN
                     \/ Config(K, env, slot[s].v) = Config(K, env', slot'[s].v)
                     \/ h.op \in {"set", "own"} /\ h.s = s
                     \/ h.op = "mut" /\ \E p \in PropNames(K) : slot[s].v[p] = h.e]_vars
\* refused requests change nothing
Refused == [][hist'[Len(hist')].op = "bad" => slot' = slot /\ env' = env]_vars
\* copies do not share
NoSharing == \A s \in Live : \A p \in PropNames(K) : (s # "a" /\ IsRef(K, p) /\ slot[s].v[p] \in EnvNames)
               => \E i \in 1..Len(hist) : hist[i].op = "set" /\ hist[i].x = slot[s].v[p]
\* behaviours are printed when complete
Done == Len(hist) >= MaxLen \/ ~ENABLED Next
EmitDone == Done => PrintT(ToJson(hist))
Walk == ~Done
=============================================================================
