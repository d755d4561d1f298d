-------------------------------- MODULE Mpi --------------------------------
(* Distributed rendering: a manager hands pixels to worker processes.        *)
(* The workers hold a copy of the scenery, made when it was last sent; the   *)
(* manager hears from any worker that is waiting, stores what it brings in   *)
(* the cell of the task it had, and gives it the next pixel or releases it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, NW, Lens, MaxOps
Pix == 1..NP
W == 1..NW
Nothing == <<0, 0>>
VARIABLES team,      \* number of workers, 0: none
          version,   \* current scenery
          seen,      \* the scenery the workers hold
          masked,
          sel,       \* pixels of the current rendering
          next,      \* position of the next pixel to hand out
          phase,     \* "rest" or "render"
          pend,      \* worker the manager has just heard from
          wst,       \* state of each worker
          task,      \* position in sel of the task of each worker
          out,       \* cells of the current or last rendering
          given,     \* positions handed out, in order
          hist
vars == <<team, version, seen, masked, sel, next, phase, pend, wst, task, out, given, hist>>
Init == team = 0 /\ version = 1 /\ seen = 0 /\ masked = {} /\ sel = <<>> /\ next = 1 /\ phase = "rest" /\ pend = 0
        /\ wst = [w \in W |-> "none"] /\ task = [w \in W |-> 0] /\ out = <<>> /\ given = <<>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Keep == UNCHANGED hist
Rest == phase = "rest"
Spawn(n) == /\ Rest /\ team' = n /\ wst' = [w \in W |-> IF w <= n THEN "idle" ELSE "none"] /\ seen' = IF n = team THEN seen ELSE 0
            /\ UNCHANGED <<version, masked, sel, next, phase, pend, task, out, given>>
Clone == Rest /\ team > 0 /\ seen' = version /\ UNCHANGED <<team, version, masked, sel, next, phase, pend, wst, task, out, given>>
Change(v) == Rest /\ version' = v /\ UNCHANGED <<team, seen, masked, sel, next, phase, pend, wst, task, out, given>>
SetMask(m) == Rest /\ masked' = m /\ UNCHANGED <<team, version, seen, sel, next, phase, pend, wst, task, out, given>>
Start(s) == /\ Rest /\ team > 0 /\ seen = version /\ phase' = "render" /\ sel' = s /\ next' = 1 /\ pend' = 0
            /\ wst' = [w \in W |-> IF w <= team THEN "asking" ELSE "none"] /\ task' = [w \in W |-> 0]
            /\ out' = [k \in 1..Len(s) |-> <<-1, -1>>] /\ given' = <<>> /\ UNCHANGED <<team, version, seen, masked>>
\* the manager hears from a worker that waits for its first task or brings a result
Recv(w) == /\ phase = "render" /\ pend = 0 /\ wst[w] \in {"asking", "done"} /\ pend' = w
           /\ UNCHANGED <<team, version, seen, masked, sel, next, phase, wst, task, out, given>>
\* positions from next on that are masked get the "nothing" value; the first other one is handed out
RECURSIVE Skip(_)
Skip(k) == IF k > Len(sel) THEN k ELSE IF sel[k] \in masked THEN Skip(k + 1) ELSE k
Stored(w, k) == [x \in DOMAIN out |-> IF wst[w] = "done" /\ x = task[w] THEN <<sel[x], seen>>
                                      ELSE IF x \in next..(k - 1) THEN Nothing ELSE out[x]]
Give(w) == LET k == Skip(next) IN
           /\ phase = "render" /\ pend = w /\ w # 0 /\ k <= Len(sel) /\ out' = Stored(w, k) /\ next' = k + 1 /\ pend' = 0
           /\ wst' = [wst EXCEPT ![w] = "busy"] /\ task' = [task EXCEPT ![w] = k] /\ given' = Append(given, k)
           /\ UNCHANGED <<team, version, seen, masked, sel, phase>>
Release(w) == LET k == Skip(next) IN
           /\ phase = "render" /\ pend = w /\ w # 0 /\ k > Len(sel) /\ out' = Stored(w, k) /\ next' = k /\ pend' = 0
           /\ wst' = [wst EXCEPT ![w] = "released"] /\ UNCHANGED <<team, version, seen, masked, sel, phase, task, given>>
Work(w) == phase = "render" /\ wst[w] = "busy" /\ wst' = [wst EXCEPT ![w] = "done"] /\ UNCHANGED <<team, version, seen, masked, sel, next, phase, pend, task, out, given>>
Finished == \A w \in W : w <= team => wst[w] = "released"
End == /\ phase = "render" /\ pend = 0 /\ Finished /\ phase' = "rest" /\ wst' = [w \in W |-> IF w <= team THEN "idle" ELSE "none"]
       /\ UNCHANGED <<team, version, seen, masked, sel, next, pend, task, out, given>>
Terminate == /\ Rest /\ team > 0 /\ team' = 0 /\ seen' = 0 /\ wst' = [w \in W |-> "none"]
             /\ UNCHANGED <<version, masked, sel, next, phase, pend, task, out, given>>
Masks == {{}, {1}, {k \in Pix : k % 2 = 0}, Pix}
Proto == \/ \E w \in W : Recv(w) /\ Log([op |-> "recv", w |-> w])
         \/ \E w \in W : Give(w) /\ Keep
         \/ \E w \in W : Release(w) /\ Keep
         \/ \E w \in W : Work(w) /\ Keep
         \/ End /\ Log([op |-> "end"])
Starts == Cardinality({k \in 1..Len(hist) : hist[k].op = "start"})
Ctl == Len(hist) < MaxOps /\
       \/ \E n \in W : n # team /\ Spawn(n) /\ Log([op |-> "spawn", n |-> n])
       \/ seen # version /\ Clone /\ Log([op |-> "clone"])
       \/ \E v \in 1..2 : v # version /\ Change(v) /\ Log([op |-> "change", v |-> v])
       \/ \E m \in Masks : m # masked /\ SetMask(m) /\ Log([op |-> "mask", m |-> m])
       \/ \E n \in Lens : \E s \in [1..n -> Pix] : Start(s) /\ Log([op |-> "start", s |-> s])
       \/ Terminate /\ Log([op |-> "terminate"])
Next == Proto \/ Ctl
Spec == Init /\ [][Next]_vars /\ WF_vars(Proto)
\* for generation: pixels are chosen by the harness, the protocol decides the order of messages
GStart(n) == Start([x \in 1..n |-> 1 + (x % NP)])
GNext == \/ Proto
         \/ Len(hist) < MaxOps /\
            \/ \E n \in W : team = 0 /\ Spawn(n) /\ Log([op |-> "spawn", n |-> n])
            \/ seen # version /\ Clone /\ Log([op |-> "clone"])
            \/ \E v \in 1..2 : team > 0 /\ seen = version /\ v # version /\ Change(v) /\ Log([op |-> "change", v |-> v])
            \/ \E m \in {{}, {1}, {2, 4}} : m # masked /\ SetMask(m) /\ Log([op |-> "mask", m |-> m])
            \/ \E n \in Lens : GStart(n) /\ Log([op |-> "start", n |-> n])
            \/ Starts > 1 /\ Terminate /\ Log([op |-> "terminate"])
         \/ Len(hist) >= MaxOps /\ Terminate /\ Log([op |-> "finish"])
EmitEnd == (hist # <<>> /\ hist[Len(hist)].op = "finish") => PrintT(ToJson(hist))
\* ---- properties
Expected(k) == IF sel[k] \in masked THEN Nothing ELSE <<sel[k], version>>
OnceEach == \A i, j \in 1..Len(given) : given[i] = given[j] => i = j
InOrder == \A i \in 1..(Len(given) - 1) : given[i] < given[i + 1]
NoMasked == \A i \in 1..Len(given) : sel[given[i]] \notin masked
Complete == (phase = "render" /\ Finished /\ pend = 0) => \A k \in 1..Len(sel) : out[k] = Expected(k)
NobodyForgotten == (phase = "render" /\ Finished) => next > Len(sel)
Terminates == (phase = "render") ~> (phase = "rest")
View == <<team, version, seen, masked, sel, next, phase, pend, wst, task, out, given, Len(hist)>>
=============================================================================
