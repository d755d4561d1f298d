------------------------------- MODULE Render -------------------------------
(* Renderings of one scenery.  What a pixel is worth is a function of the     *)
(* scenery and of the pixel: Value(p, q).  A rendering takes a selection of   *)
(* pixels in some order, a number of threads or processes, a set of requested *)
(* quantities and a way of asking; recorded impact coordinates can be reused. *)
(* Workers keep a ray between two pixels; the model says that it is set up    *)
(* anew for every pixel, so that what it did before cannot matter.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Quants, Workers, Hows, MaxOps
Pix == 1..(N * N)
Nothing == <<0, "nothing">>               \* what a masked or missed pixel gets
VARIABLES masked,       \* pixels masked out on the screen
          omask,        \* the same for the scenery the current one is a clone of
          recorded,     \* pixels whose impact coordinates are known
          ray,          \* ray[w]: pixel the ray of worker w was last set up for
          out,          \* result of the last rendering: pixel -> quantity -> value
          hist
vars == <<masked, omask, recorded, ray, out, hist>>
Value(p, q) == <<p, q>>
Result(p, q, m) == IF p \in m THEN Nothing ELSE Value(p, q)
Mask(how) == IF how \in {"angles", "direct"} THEN {} ELSE masked
\* masks are made of pixels: directions given as angles are not masked
SelSet(s) == {s[k] : k \in 1..Len(s)}
\* pixel k of the selection is computed by some worker, whose ray is set up for it
Assign(s, w) == [1..Len(s) -> 1..w]
RayAfter(s, a, w) == IF \E k \in 1..Len(s) : a[k] = w THEN s[CHOOSE k \in 1..Len(s) : a[k] = w /\ \A j \in k+1..Len(s) : a[j] # w] ELSE ray[w]
DoRender(s, w, Q, a, m) ==
   /\ ray' = [x \in Workers |-> RayAfter(s, a, x)]
   /\ out' = [p \in SelSet(s) |-> [q \in Q |-> Result(p, q, m)]]
   /\ UNCHANGED <<masked, omask, recorded>>
DoRecord(s) == /\ recorded' = recorded \union SelSet(s)
               /\ out' = [p \in SelSet(s) |-> [q \in {} |-> Nothing]] /\ UNCHANGED <<masked, omask, ray>>
DoMask(m) == masked' = m /\ recorded' = {} /\ out' = <<>> /\ UNCHANGED <<omask, ray>>
DoClone == omask' = masked /\ UNCHANGED <<masked, recorded, ray, out>>
DoSwap == omask' = masked /\ masked' = omask /\ recorded' = {} /\ out' = <<>> /\ UNCHANGED ray
Init == masked = {} /\ omask = {} /\ recorded = {} /\ ray = [w \in Workers |-> 0] /\ out = <<>> /\ hist = <<>>
\* selections: the whole image, rows, sub-grids with steps, lists in any order with repetitions
Masks == {{}, {1}, {k \in Pix : k % 2 = 0}, {k \in Pix : k > N}}
Sels == {<<p>> : p \in Pix} \union {<<p, r>> : p, r \in Pix}
Next == Len(hist) < MaxOps /\
   \/ \E s \in Sels, w \in Workers, Q \in (SUBSET Quants) \ {{}}, how \in Hows :
         /\ (how = "reuse" => SelSet(s) \subseteq recorded)
         /\ (how \in {"one", "direct"} => w = 1)
         /\ \E a \in Assign(s, w) : DoRender(s, w, Q, a, Mask(how)) /\ hist' = Append(hist, [op |-> "render", how |-> how, w |-> w, Q |-> Q, s |-> s])
   \/ \E s \in Sels : DoRecord(s) /\ hist' = Append(hist, [op |-> "record", s |-> s])
   \/ \E m \in Masks : DoMask(m) /\ hist' = Append(hist, [op |-> "mask", m |-> m])
   \/ DoClone /\ hist' = Append(hist, [op |-> "clone"])
   \/ DoSwap /\ hist' = Append(hist, [op |-> "swap"])
\* shapes of histories, for the implementation: pixels are chosen from these shapes by the harness
Shapes == {"all", "row", "column", "grid", "stepped", "list", "rlist", "single"}
SNext == Len(hist) < MaxOps /\ UNCHANGED <<masked, omask, recorded, ray, out>> /\
   \/ \E sh \in Shapes, w \in Workers, k \in 0..3, how \in Hows :
         /\ (how = "image" => sh \in {"all", "row", "column", "grid", "stepped"})
         /\ (how \in {"one", "direct"} => w = 1)
         /\ (how = "reuse" => \E j \in 1..Len(hist) : hist[j].op = "record" /\ \A i \in j..Len(hist) : hist[i].op \notin {"mask", "swap"})
         /\ hist' = Append(hist, [op |-> "render", how |-> how, w |-> w, k |-> k, sh |-> sh])
   \/ \E sh \in {"all"}, w \in Workers : "reuse" \in Hows /\ hist' = Append(hist, [op |-> "record", sh |-> sh, w |-> w])
   \/ \E o \in {"clone", "swap"} : (o = "swap" => \E j \in 1..Len(hist) : hist[j].op = "clone") /\ hist' = Append(hist, [op |-> o])
   \/ \E k \in 0..3 : hist' = Append(hist, [op |-> "mask", k |-> k])
\* histories that start by recording the impacts of all pixels and mostly reuse them
RNext == Len(hist) < MaxOps /\ UNCHANGED <<masked, omask, recorded, ray, out>> /\
   \/ \E w \in Workers : (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op \in {"mask", "swap"}) /\ hist' = Append(hist, [op |-> "record", sh |-> "all", w |-> w])
   \/ (IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].op \notin {"mask", "swap"}) /\
        \/ \E sh \in Shapes, w \in Workers, k \in 0..3 : hist' = Append(hist, [op |-> "render", how |-> "reuse", w |-> w, k |-> k, sh |-> sh])
        \/ \E w \in Workers, k \in 0..3 : hist' = Append(hist, [op |-> "render", how |-> "bucket", w |-> w, k |-> k, sh |-> "list"])
        \/ hist' = Append(hist, [op |-> "clone"])
        \/ \E k \in 0..3 : hist' = Append(hist, [op |-> "mask", k |-> k])
        \/ (\E j \in 1..Len(hist) : hist[j].op = "clone") /\ hist' = Append(hist, [op |-> "swap"])
TypeOk == masked \subseteq Pix /\ recorded \subseteq Pix
Once == \A p \in DOMAIN out : \A q \in DOMAIN out[p] : out[p][q] \in {Nothing, Value(p, q)}
\* the value does not depend on how it was asked for
Functional == [][\A p \in DOMAIN out \intersect DOMAIN out' : \A q \in DOMAIN out[p] \intersect DOMAIN out'[p] : (masked = masked' /\ "direct" \notin Hows) => out[p][q] = out'[p][q]]_vars
EmitEnd == Len(hist) = MaxOps => PrintT(ToJson(hist))
View == <<masked, omask, recorded, out, Len(hist)>>
=============================================================================
