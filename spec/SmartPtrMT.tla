----------------------------- MODULE SmartPtrMT -----------------------------
(* Several threads, each copying and dropping its own smart pointers to       *)
(* shared objects.  An operation is begun, takes effect, and ends; only the   *)
(* effect is atomic.  The object is destroyed by the operation that dropped   *)
(* the last reference.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxCopy, MaxOps
VARIABLES held,    \* references held per thread, as far as its finished or begun operations tell
          ref,     \* the counter
          dead,    \* times destroyed
          pc, n, sched
vars == <<held, ref, dead, pc, n, sched>>
view == <<held, ref, dead, pc, n>>
Init == /\ held = [x \in Threads |-> 1] /\ ref = Cardinality(Threads) /\ dead = 0
        /\ pc = [x \in Threads |-> "idle"] /\ n = [x \in Threads |-> 0] /\ sched = <<>>
Sched(x) == sched' = Append(sched, x)
BeginCopy(x) == /\ pc[x] = "idle" /\ held[x] \in 1..(MaxCopy-1) /\ n[x] < MaxOps
                /\ pc' = [pc EXCEPT ![x] = "copy"] /\ n' = [n EXCEPT ![x] = @ + 1] /\ UNCHANGED <<held, ref, dead>>
Copy(x) == /\ pc[x] = "copy" /\ ref' = ref + 1 /\ held' = [held EXCEPT ![x] = @ + 1]
           /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED <<dead, n>>
BeginDrop(x) == /\ pc[x] = "idle" /\ held[x] > 0
                /\ pc' = [pc EXCEPT ![x] = "drop"] /\ held' = [held EXCEPT ![x] = @ - 1] /\ UNCHANGED <<ref, dead, n>>
Drop(x) == /\ pc[x] = "drop" /\ ref' = ref - 1
           /\ pc' = [pc EXCEPT ![x] = IF ref = 1 THEN "destroy" ELSE "idle"] /\ UNCHANGED <<held, dead, n>>
Destroy(x) == /\ pc[x] = "destroy" /\ dead' = dead + 1 /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED <<held, ref, n>>
Next == \E x \in Threads : (BeginCopy(x) \/ Copy(x) \/ BeginDrop(x) \/ Drop(x) \/ Destroy(x)) /\ Sched(x)
Sum(f) == LET RECURSIVE S(_)
              S(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN f[x] + S(s \ {x})
          IN S(Threads)
AtMostOnce == dead <= 1
NotBefore == dead > 0 => Sum(held) = 0
NeverUsedDead == dead > 0 => \A x \in Threads : pc[x] = "idle"
Done == \A x \in Threads : pc[x] = "idle" /\ held[x] = 0
DestroyedAtEnd == Done => dead = 1
EmitDone == ~Done \/ PrintT(ToJson(sched))
=============================================================================
