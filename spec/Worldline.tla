----------------------------- MODULE Worldline -----------------------------
(* A trajectory (photon or star): a metric that may be shared and changed by
   others, initial coordinates, an optional polarisation basis, integration
   settings, and points computed on demand on both sides of the initial one.
   What is stored is always what the current configuration gives: `since' is
   the list of computations made under it, the only thing a trajectory owes to
   its past.  `tag' is the configuration the stored points come from.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, Ops, Kind      \* Kind: "photon" or "star"
T == JsonDeserialize(IOEnv.WLTAB)
Metrics == {T.metrics[i] : i \in 1..Len(T.metrics)}
Vecs == 1..T.vecs
Sets == {<<T.sets[i][1], T.sets[i][2]>> : i \in 1..Len(T.sets)}     \* <<setting, value>>
SetNames == {s[1] : s \in Sets}
Range(q) == {q[i] : i \in 1..Len(q)}
None == "-"

VARIABLES mj,     \* metric -> its parameter value (1 or 2)
          cur,    \* the metric of the trajectory, or None
          own,    \* 0, or the parameter value of the private copy of that metric
          vec,    \* initial coordinates, 0: none
          pt, bas,\* a basis is transported; it was given with the initial coordinates
          st, st0,\* settings, as <<name, value>>: now and when the points were last dropped
          since,  \* computations and settings since then
          back, fwd, tag, \* points stored on either side, and the configuration they come from
          hist
conf == <<cur, own, mj, vec, pt, bas>>
state == <<mj, cur, own, vec, pt, bas, st, st0, since, back, fwd, tag>>
vars == <<state, hist>>
Par == IF own # 0 THEN own ELSE IF cur = None THEN 0 ELSE mj[cur]
Conf == [g |-> cur, j |-> Par, vec |-> vec, pt |-> pt, bas |-> pt /\ bas]
Init == /\ mj = [g \in Metrics |-> 1] /\ cur = None /\ own = 0 /\ vec = 0 /\ pt = FALSE /\ bas = FALSE
        /\ st = <<>> /\ st0 = <<>> /\ since = <<>> /\ back = 0 /\ fwd = 0
        /\ tag = [g |-> None, j |-> 0, vec |-> 0, pt |-> FALSE, bas |-> FALSE]
        /\ hist = <<>>
Ready == cur # None /\ vec # 0

\* ---- transitions ---------------------------------------------------------
\* everything computed is dropped
Dropped == since' = <<>> /\ st0' = st /\ back' = 0 /\ fwd' = 0 /\ tag' = Conf'
Kept == UNCHANGED <<since, st0, back, fwd, tag>>
SetMetric(g) == cur' = g /\ own' = 0 /\ UNCHANGED <<mj, vec, pt, bas, st>> /\ Dropped
\* somebody changes a metric: the trajectory follows if it is its own
ChangeMetric(g, j) == /\ mj' = [mj EXCEPT ![g] = j] /\ UNCHANGED <<cur, own, vec, pt, bas, st>>
                      /\ IF cur = g /\ own = 0 THEN Dropped ELSE Kept
ChangeOwn(j) == IF own # 0 THEN own' = j /\ UNCHANGED <<mj, cur, vec, pt, bas, st>> /\ Dropped
                ELSE ChangeMetric(cur, j)
InitCoord(v) == vec' = v /\ bas' = pt /\ UNCHANGED <<mj, cur, own, pt, st>> /\ Dropped
Track(b) == IF b = pt THEN UNCHANGED state
            ELSE pt' = b /\ bas' = FALSE /\ UNCHANGED <<mj, cur, own, vec, st>> /\ Dropped
Reset == UNCHANGED <<mj, cur, own, vec, pt, bas, st>> /\ Dropped
Set(n, v) == /\ st' = Append(SelectSeq(st, LAMBDA x : x[1] # n), <<n, v>>) /\ since' = Append(since, [op |-> "set", n |-> n, v |-> v])
             /\ UNCHANGED <<mj, cur, own, vec, pt, bas, st0, back, fwd, tag>>
\* work goes on with a copy, which has its own copy of the metric
Copy == /\ own' = Par /\ UNCHANGED <<mj, cur, vec, pt, bas, st>>
        /\ IF Kind = "star" THEN Dropped ELSE Kept
Compute(e, b, f) == /\ since' = Append(since, e) /\ back' = back + b /\ fwd' = fwd + f
                    /\ tag' = Conf /\ UNCHANGED <<mj, cur, own, vec, pt, bas, st, st0>>

\* ---- exploration -----------------------------------------------------------
Log(e) == hist' = Append(hist, e)
Step == \/ "metric" \in Ops /\ \E g \in Metrics : SetMetric(g) /\ Log([op |-> "metric", g |-> g])
        \/ "mset" \in Ops /\ \E g \in Metrics, j \in {1, 2} : mj[g] # j /\ ChangeMetric(g, j) /\ Log([op |-> "mset", g |-> g, j |-> j])
        \/ "own" \in Ops /\ cur # None /\ \E j \in {1, 2} : Par # j /\ ChangeOwn(j) /\ Log([op |-> "own", j |-> j])
        \/ "init" \in Ops /\ cur # None /\ \E v \in Vecs, d \in {-1, 0, 1} : InitCoord(v) /\ Log([op |-> "init", v |-> v, d |-> d])
        \/ "ptrans" \in Ops /\ Kind = "photon" /\ \E b \in BOOLEAN : Track(b) /\ Log([op |-> "ptrans", b |-> b])
        \/ "reset" \in Ops /\ Ready /\ Reset /\ Log([op |-> "reset"])
        \/ "set" \in Ops /\ \E s \in Sets : Set(s[1], s[2]) /\ Log([op |-> "set", n |-> s[1], v |-> s[2]])
        \/ "copy" \in Ops /\ cur # None /\ Copy /\ Log([op |-> "copy"])
        \/ "fill" \in Ops /\ Ready /\ \E d \in Range(T.offsets) : LET e == [op |-> "fill", d |-> d] IN
              (\E b, f \in {0, 1} : Compute(e, b, f)) /\ Log(e)
        \/ "query" \in Ops /\ Ready /\ \E x \in Range(T.queries) : LET e == [op |-> "query", m |-> x.m, q |-> x.q, k |-> x.k] IN
              (\E b, f \in {0, 1} : Compute(e, b, f)) /\ Log(e)
Next == Len(hist) < MaxOps /\ Step
\* behaviours that begin with a metric and initial coordinates
Start2 == \E g \in Metrics, v \in Vecs, d \in {-1, 0, 1} :
          /\ mj = [x \in Metrics |-> 1] /\ cur = g /\ own = 0 /\ vec = v /\ pt = FALSE /\ bas = FALSE
          /\ st = <<>> /\ st0 = <<>> /\ since = <<>> /\ back = 0 /\ fwd = 0 /\ tag = Conf
          /\ hist = <<[op |-> "metric", g |-> g], [op |-> "init", v |-> v, d |-> d]>>

\* ---- properties --------------------------------------------------------------
NoStalePoint == (back + fwd > 0) => tag = Conf
OnlySinceCounts == [][Conf' # Conf => (back' = 0 /\ fwd' = 0 /\ since' = <<>>)]_vars
OthersDoNotMatter == [][(Conf' = Conf /\ since' # <<>>) => Len(since') >= Len(since)]_vars
View == <<state, Len(hist)>>
EmitEnd == (Len(hist) = MaxOps) => PrintT(ToJson(hist))
=============================================================================
