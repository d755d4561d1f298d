------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the gyoto program: the options, then what it did.          *)
(* A cell lists the codes of everything its value agrees with: 0 = unset,      *)
(* 1 = nothing hit, 10000*res + 1000*fov + 100*inc + pixel = the value the library computes.    *)
EXTENDS Cli, IOUtils
VARIABLES t, l
tvars == <<o, err, hist, snap, ran, kind, t, l>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
QSets == JsonDeserialize(IOEnv.QSETS)     \* [scene |-> <<default, set 1, ...>>]
Ev == Traces[t].ev
TInit == Init /\ kind = "" /\ t \in 1..Len(Traces) /\ l = 1
Range(s) == {s[k] : k \in 1..Len(s)}
Code(c, p) == 10000 * c.res + 1000 * c.fov + 100 * c.inc + (p[2] - 1) * c.res + p[1]
Quants(e, q) == Range(QSets[e.scene][q + 1])
Planes(e, Q) == Q \ {"ImpactCoords"}
\* the image is what the options ask for
ImageOk(e, c, q, sel, write, read) ==
  LET Q == Quants(e, q) P == Planes(e, Q) IN
  /\ e.res = c.res
  /\ Len(e.labels) = Cardinality(P) /\ Range(e.labels) = P        \* one label per quantity, no other
  /\ e.planes = e.need                                            \* and one plane per quantity and channel
  /\ Len(e.cells) = c.res * c.res
  /\ \A n \in 1..Len(e.cells) : LET x == e.cells[n] p == <<x.i, x.j>> IN
       \A m \in 1..Len(x.v) : LET M == Range(x.v[m].m) IN
         IF p \in sel THEN IF read # 0 THEN Code([res |-> read, fov |-> 1, inc |-> 1], p) \in M \/ (x.missed /\ 1 \in M)
                           ELSE Code(c, p) \in M
         ELSE 0 \in M
  /\ e.impact = (write \/ "ImpactCoords" \in Q)
  /\ e.impact => \A n \in 1..Len(e.cells) : LET x == e.cells[n] p == <<x.i, x.j>> M == Range(x.ip) IN
         IF read # 0 THEN Code([res |-> read, fov |-> 1, inc |-> 1], p) \in M
         ELSE IF p \in sel THEN Code(c, p) \in M ELSE 0 \in M
RunOk(e) == IF err \/ LateError(o) \/ e.refuse
            THEN e.exit > 0 /\ e.exit < 128 /\ e.msg
            ELSE e.exit = 0 /\ ImageOk(e, Conf(o), o.q, Pixels(o), o.write, o.read)
\* the XML file written on the way describes the scenery at that point
AgainOk(e) == IF snap = <<>> \/ err THEN TRUE
              ELSE e.exit = 0 /\ ImageOk(e, snap[1].c, snap[1].q, (1..snap[1].c.res) \X (1..snap[1].c.res), FALSE, 0)
TStep == LET e == Ev[l] IN
  CASE e.op = "run" -> (RunOk(e) = TRUE) /\ ran' = TRUE /\ UNCHANGED <<o, err, snap>>
    [] e.op = "again" -> ran /\ (AgainOk(e) = TRUE) /\ UNCHANGED <<o, err, snap, ran>>
    [] e.op = "CRASH" -> FALSE
    [] OTHER -> Step(e)
TNext == \/ l <= Len(Ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<hist, kind, t>>
         \/ l > Len(Ev) /\ UNCHANGED tvars
=============================================================================
