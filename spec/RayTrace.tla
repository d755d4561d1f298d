------------------------------ MODULE RayTrace ------------------------------
(* Parallel ray-tracing of a selection of pixels into an output buffer.       *)
(* Threads repeatedly take the next point of the selection and then, without  *)
(* any lock, trace it and store the result in the cell that belongs to it.    *)
EXTENDS PixelSeq, FiniteSets, TLC, Json
CONSTANTS Threads, NPix
VARIABLES cfg, cur, pc, job, visits, cells, sched
vars == <<cfg, cur, pc, job, visits, cells, sched>>

(* ---- what a call must do, as a function of its arguments ---- *)
(* configuration: sel (selection), mask (none | set of kept pixels), full (full-size image buffer) *)
Pts(c) == Seq2(c.sel)
IsAngle(c) == Angle2(c.sel)
Kept(c, p) == IsAngle(c) \/ c.mask = "none" \/ \E k \in 1..Len(c.keep) : c.keep[k] = p
CellOf(c, r) == IF c.full /\ ~IsAngle(c) THEN (Pts(c)[r][2] - 1) * NPix + Pts(c)[r][1] ELSE r
Code(c, p) == IF ~Kept(c, p) THEN 0 ELSE IF IsAngle(c) THEN 1000 + 10 * p[2] + p[1] ELSE 10 * p[2] + p[1]
NCells == NPix * NPix + 4
Untouched == -1
Ranks(c) == 1..Len(Pts(c))
\* expected content of the buffer
Expected(c) == [k \in 1..NCells |-> LET rs == {r \in Ranks(c) : CellOf(c, r) = k}
                                   IN IF rs = {} THEN Untouched ELSE Code(c, Pts(c)[CHOOSE r \in rs : TRUE])]
\* how often each point must be traced
Times(c, p) == IF Kept(c, p) THEN Cardinality({r \in Ranks(c) : Pts(c)[r] = p}) ELSE 0

(* ---- the concurrent algorithm ---- *)
Idle == [p |-> <<0, 0>>, cell |-> 0]
Start(c) == /\ cfg = c /\ cur = 1 /\ pc = [t \in Threads |-> "fetch"] /\ job = [t \in Threads |-> Idle]
            /\ visits = [r \in Ranks(c) |-> 0] /\ cells = [k \in 1..NCells |-> Untouched] /\ sched = <<>>
Fetch(t) == /\ pc[t] = "fetch"
            /\ IF cur <= Len(Pts(cfg))
               THEN /\ job' = [job EXCEPT ![t] = [p |-> Pts(cfg)[cur], cell |-> CellOf(cfg, cur), r |-> cur]]
                    /\ cur' = cur + 1 /\ pc' = [pc EXCEPT ![t] = "trace"]
               ELSE /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<cur, job>>
            /\ UNCHANGED <<cfg, visits, cells>>
Trace(t) == /\ pc[t] = "trace"
            /\ visits' = IF Kept(cfg, job[t].p) THEN [visits EXCEPT ![job[t].r] = @ + 1] ELSE visits
            /\ cells' = [cells EXCEPT ![job[t].cell] = Code(cfg, job[t].p)]
            /\ pc' = [pc EXCEPT ![t] = "fetch"] /\ UNCHANGED <<cfg, cur, job>>
Next == \E t \in Threads : (Fetch(t) \/ Trace(t)) /\ sched' = Append(sched, t)
Done == \A t \in Threads : pc[t] = "done"
view == <<cfg, cur, pc, job, visits, cells>>

(* ---- properties of the algorithm ---- *)
AtMostOnce == \A r \in Ranks(cfg) : visits[r] <= 1
AllOnceAtEnd == Done => /\ \A r \in Ranks(cfg) : visits[r] = (IF Kept(cfg, Pts(cfg)[r]) THEN 1 ELSE 0)
                        /\ cells = Expected(cfg)
NeverWrongCell == \A k \in 1..NCells : cells[k] \in {Untouched, Expected(cfg)[k]}
NoRaceOnCell == \A t, u \in Threads : t # u /\ pc[t] = "trace" /\ pc[u] = "trace" => job[t].r # job[u].r

(* ---- configurations ---- *)
V == 1..NPix
Ls(S, n) == UNION {[1..k -> S] : k \in 0..n}
One == [k : {"R"}, a : {1, 2}, b : {1, NPix}, d : {1, 2, 3}] \cup [k : {"I"}, v : Ls({1, 3, 4}, 2)]
Ang == [k : {"A"}, v : Ls({1, 2}, 3)] \cup [k : {"P"}, x : {1, 2}, n : 0..3]
Sels == [k : {"G"}, i : One, j : One] \cup {[k |-> "E"]}
        \cup {s \in [k : {"B"}, i : One, j : One] \cup [k : {"B"}, i : Ang, j : Ang] : ~Refused2(s)}
Masks == { [mask |-> "none", keep |-> <<>>],
           [mask |-> "set", keep |-> <<<<1, 1>>, <<3, 2>>, <<4, 4>>, <<2, 3>>, <<1, 4>>>>],
           [mask |-> "set", keep |-> <<>>],
           [mask |-> "set", keep |-> <<<<4, 1>>, <<1, 2>>>>] }
Cfgs == {[sel |-> s, mask |-> m.mask, keep |-> m.keep, full |-> f] : s \in Sels, m \in Masks, f \in BOOLEAN}
\* duplicated pixels in a full-size buffer go to the same cell: allowed
InitAll == \E c \in Cfgs : Start(c)
McSels == { [k |-> "G", i |-> [k |-> "R", a |-> 1, b |-> 2, d |-> 1], j |-> [k |-> "R", a |-> 1, b |-> 4, d |-> 3]],
            [k |-> "B", i |-> [k |-> "I", v |-> <<1, 3, 1>>], j |-> [k |-> "I", v |-> <<2, 4, 2>>]],
            [k |-> "B", i |-> [k |-> "A", v |-> <<1, 2, 1>>], j |-> [k |-> "P", x |-> 1, n |-> 3]], [k |-> "E"] }
InitMc == \E s \in McSels, m \in Masks, f \in BOOLEAN : Start([sel |-> s, mask |-> m.mask, keep |-> m.keep, full |-> f])
EmitCfg == PrintT(ToJson(cfg))
NoNext == cur = 0 /\ UNCHANGED vars
EmitSched == ~Done \/ PrintT(ToJson(sched))
=============================================================================
