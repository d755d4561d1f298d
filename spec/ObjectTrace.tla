---------------------------- MODULE ObjectTrace ----------------------------
(* Recorded executions of the real object model, checked against ObjectModel. *)
EXTENDS ObjectModel
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
E == Traces[t].ev[l]
KindIdx(n) == CHOOSE i \in 1..Len(Kinds) : Kinds[i].name = n
EnvInit == [e \in EnvNames |-> EnvObj[e][1]]
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ kind = KindIdx(Traces[t].ev[1].kind) /\ group = 0 /\ todo = {} /\ hist = <<>>
         /\ slot = [s \in Slots |-> IF s = "a" THEN [live |-> TRUE, v |-> Base(K)] ELSE Dead]
         /\ env = EnvInit
TSet == /\ E.op = "set" /\ E.res = "ok" /\ slot[E.s].live
        /\ slot' = [slot EXCEPT ![E.s].v = SetVal(K, slot[E.s].v, E.p, E.x)] /\ UNCHANGED env
TMut == E.op = "mut" /\ E.res = "ok" /\ env' = [env EXCEPT ![E.e] = E.x] /\ UNCHANGED slot
TCopy == /\ E.op \in {"clone", "xml"} /\ E.res = "ok" /\ slot[E.s].live /\ ~slot[E.t].live
         /\ slot' = [slot EXCEPT ![E.t] = [live |-> TRUE, v |-> Copy(K, env, slot[E.s].v)]] /\ UNCHANGED env
TOwn == /\ E.op = "own" /\ E.res = "ok" /\ OwnOf(slot[E.s].v[E.p]) # {} /\ UNCHANGED env
        /\ slot' = [slot EXCEPT ![E.s].v[E.p] = E.e \o "@" \o E.x]
TDel == E.op = "del" /\ E.res = "ok" /\ slot' = [slot EXCEPT ![E.s] = Dead] /\ UNCHANGED env
TBad == E.op = "bad" /\ E.res = "error" /\ UNCHANGED <<slot, env>>
TInitEv == E.op = "init" /\ E.res = "ok" /\ UNCHANGED <<slot, env>>
\* the object behaves as a fresh object with this configuration does
TSame == /\ E.op = "same" /\ E.cfg = Config(K, env, slot[E.s].v) /\ E.res = "same" /\ UNCHANGED <<slot, env>>
\* what reading each property can stand for
Own(x) == x \notin {"~", "auto", "NULL"} /\ x \notin EnvNames
TReads == /\ E.op = "reads"
          /\ \A i \in 1..Len(K.props) :
               LET p == K.props[i].n  x == slot[E.s].v[p]  r == {E.r[i][j] : j \in 1..Len(E.r[i])}
               IN \/ x = "auto" \/ x \in r \/ (K.props[i].ref /\ Own(x) /\ "?" \in r)
          /\ UNCHANGED <<slot, env>>
TXmlFix == E.op = "xmlfix" /\ E.res = "same" /\ UNCHANGED <<slot, env>>
TAlias == E.op = "alias" /\ E.res = "ok" /\ UNCHANGED <<slot, env>>
TStep == TOwn \/ TSet \/ TMut \/ TCopy \/ TDel \/ TBad \/ TInitEv \/ TSame \/ TReads \/ TXmlFix \/ TAlias
TNext == /\ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, kind, group, todo, hist>>
Accepted == l > Len(Traces[t].ev) \/ ENABLED TStep
=============================================================================
