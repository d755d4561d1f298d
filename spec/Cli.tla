-------------------------------- MODULE Cli --------------------------------
(* The gyoto program: options are processed in the order they are given, each  *)
(* overriding what came before; then one image is computed and stored.         *)
(* State: what the options read so far ask for.  hist: the command line.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ress,      \* resolutions that can be asked for
          Vars,      \* variants of the field of view and of the inclination
          NQ,        \* number of sets of quantities (0: the default of the object)
          Procs,     \* numbers of worker processes
          MaxOps
VARIABLES o, err, hist, snap, ran
vars == <<o, err, hist, snap, ran>>
Empty == 99          \* a field of a range that is present but empty
Absent == 98         \* ... not given at all
Inf == 1000
Opts0 == [imin |-> 1, imax |-> Inf, di |-> 1, jmin |-> 1, jmax |-> Inf, dj |-> 1, res |-> 5, fov |-> 1, inc |-> 1, unit |-> "", q |-> 0, threads |-> 0, procs |-> 0, write |-> FALSE, read |-> 0]
\* what is rendered depends on these only
Conf(x) == [res |-> x.res, fov |-> x.fov, inc |-> x.inc]
Min(a, b) == IF a < b THEN a ELSE b
Line(lo, hi, d, n) == {k \in 1..n : k >= lo /\ k <= hi /\ (k - lo) % d = 0}
Pixels(x) == {<<i, j>> : i \in Line(x.imin, x.imax, x.di, x.res), j \in Line(x.jmin, x.jmax, x.dj, x.res)}

\* a range lo[:hi[:d]]
SpecLo(s) == IF s.lo = Empty THEN 1 ELSE s.lo
SpecHi(s) == IF s.hi = Absent THEN SpecLo(s) ELSE IF s.hi = Empty THEN Inf ELSE s.hi
SpecD(s) == IF s.d \in {Absent, Empty} THEN 1 ELSE s.d
BadSpec(s) == SpecLo(s) <= 0 \/ SpecHi(s) <= 0 \/ SpecD(s) <= 0
Bad(x, e) == CASE e.op = "spec" -> BadSpec(e)
               [] e.op = "bound" -> e.v <= 0
               [] e.op = "step" -> e.v < 0
               [] e.op = "parfov" -> x.unit = "nonsense"
               [] e.op = "bad" -> TRUE
               [] OTHER -> FALSE
Apply(x, e) ==
  CASE e.op = "spec" /\ e.a = "i" -> [x EXCEPT !.imin = SpecLo(e), !.imax = SpecHi(e), !.di = SpecD(e)]
    [] e.op = "spec" /\ e.a = "j" -> [x EXCEPT !.jmin = SpecLo(e), !.jmax = SpecHi(e), !.dj = SpecD(e)]
    [] e.op = "bound" -> [x EXCEPT ![e.f] = e.v]
    [] e.op = "step" -> [x EXCEPT ![e.f] = IF e.v = 0 THEN 1 ELSE e.v]
    [] e.op = "res" -> [x EXCEPT !.res = e.v]
    [] e.op \in {"fov", "parfov"} -> [x EXCEPT !.fov = e.v]
    [] e.op = "inc" -> [x EXCEPT !.inc = e.v]
    [] e.op = "unit" -> [x EXCEPT !.unit = e.u]
    [] e.op = "quant" -> [x EXCEPT !.q = e.v]
    [] e.op = "threads" -> [x EXCEPT !.threads = e.v]
    [] e.op = "procs" -> [x EXCEPT !.procs = e.v]
    [] e.op = "ipwrite" -> [x EXCEPT !.write = TRUE]
    [] e.op = "ipread" -> [x EXCEPT !.read = e.v]
    [] OTHER -> x
\* errors found when everything has been read: impact coordinates of another resolution
LateError(x) == x.read # 0 /\ x.read # x.res
Init == o = Opts0 /\ err = FALSE /\ hist = <<>> /\ snap = <<>> /\ ran = FALSE
Step(e) == /\ ~ran /\ o' = (IF err \/ Bad(o, e) THEN o ELSE Apply(o, e)) /\ err' = (err \/ Bad(o, e))
           /\ snap' = (IF e.op = "xml" /\ ~err THEN <<[c |-> Conf(o), q |-> o.q]>> ELSE snap) /\ UNCHANGED ran
Do(e) == Len(hist) < MaxOps /\ Step(e) /\ hist' = Append(hist, e)
Fields == {"imin", "imax", "jmin", "jmax"}
Los == {Empty, 0, 1, 2, 3}
His == {Absent, Empty, 0 - 1, 1, 3, 4, 9}
Ds == {Absent, Empty, 0, 1, 2}
Next == \/ \E a \in {"i", "j"}, lo \in Los, hi \in His, d \in Ds : (hi = Absent => d = Absent) /\ Do([op |-> "spec", a |-> a, lo |-> lo, hi |-> hi, d |-> d])
        \/ \E f \in Fields, v \in {0, 1, 2, 4, 9} : Do([op |-> "bound", f |-> f, v |-> v])
        \/ \E f \in {"di", "dj"}, v \in {0 - 1, 0, 1, 2, 3} : Do([op |-> "step", f |-> f, v |-> v])
        \/ \E v \in Ress : Do([op |-> "res", v |-> v])
        \/ \E v \in Vars, k \in {"fov", "parfov", "inc"} : Do([op |-> k, v |-> v])
        \/ \E u \in {"", "degree", "nonsense"} : Do([op |-> "unit", u |-> u])
        \/ \E v \in 1..NQ : Do([op |-> "quant", v |-> v])
        \/ \E v \in {1, 2, 4} : Do([op |-> "threads", v |-> v])
        \/ \E v \in Procs : Do([op |-> "procs", v |-> v])
        \/ \E v \in Ress : Do([op |-> "ipread", v |-> v])
        \/ Do([op |-> "ipwrite"]) \/ Do([op |-> "xml"])
        \/ \E k \in {"option", "parameter", "value"} : Do([op |-> "bad", k |-> k])
\* generation: a kind of option first, then its argument, so that all kinds are as likely
VARIABLE kind
GInit == Init /\ kind = "" 
Kinds == {"spec", "spec2", "bound", "bound2", "step", "res", "angle", "unit", "quant", "quant2", "threads", "procs", "ip", "xml", "bad", "pick"}
Pick == kind = "" /\ ~ran /\ Len(hist) < MaxOps /\ kind' \in Kinds /\ UNCHANGED vars
GStep == /\ kind # "" /\ kind' = ""
         /\ CASE kind \in {"spec", "spec2"} -> \E a \in {"i", "j"}, lo \in Los, hi \in His, d \in Ds : (hi = Absent => d = Absent) /\ (BadSpec([lo |-> lo, hi |-> hi, d |-> d]) => kind = "spec") /\ Do([op |-> "spec", a |-> a, lo |-> lo, hi |-> hi, d |-> d])
              [] kind \in {"bound", "bound2"} -> \E f \in Fields, v \in {0, 1, 2, 4, 9} : (v = 0 => kind = "bound") /\ Do([op |-> "bound", f |-> f, v |-> v])
              [] kind = "step" -> \E f \in {"di", "dj"}, v \in {0 - 1, 0, 1, 2, 3} : Do([op |-> "step", f |-> f, v |-> v])
              [] kind = "res" -> \E v \in Ress : Do([op |-> "res", v |-> v])
              [] kind \in {"angle", "pick"} -> \E v \in Vars, k \in {"fov", "parfov", "inc"} : Do([op |-> k, v |-> v])
              [] kind = "unit" -> \E u \in {"", "degree", "nonsense"} : Do([op |-> "unit", u |-> u])
              [] kind \in {"quant", "quant2"} -> \E v \in 1..NQ : Do([op |-> "quant", v |-> v])
              [] kind = "threads" -> \E v \in {1, 2, 4} : Do([op |-> "threads", v |-> v])
              [] kind = "procs" -> \E v \in Procs : Do([op |-> "procs", v |-> v])
              [] kind = "ip" -> (\E v \in Ress : Do([op |-> "ipread", v |-> v])) \/ Do([op |-> "ipwrite"])
              [] kind = "xml" -> Do([op |-> "xml"])
              [] kind = "bad" -> \E k \in {"option", "parameter", "value"} : Do([op |-> "bad", k |-> k])
GoOn == kind = "" /\ ~ran /\ Len(hist) >= (MaxOps + 1) \div 2 /\ ran' = TRUE /\ UNCHANGED <<o, err, hist, snap, kind>>
GNext == Pick \/ GStep \/ GoOn
EmitEnd == (ran => PrintT(ToJson(hist))) 
MNext == Next /\ UNCHANGED kind
View == <<o, err, snap, Len(hist)>>
\* ---- what the specification itself guarantees
TypeOk == o.res \in Ress \cup {5} /\ o.imin > 0 /\ o.imax > 0 /\ o.di > 0 /\ o.jmin > 0 /\ o.jmax > 0 /\ o.dj > 0
Inside == Pixels(o) \subseteq ((1..o.res) \X (1..o.res))
Sticky == [][err => (err' /\ o' = o)]_<<o, err>>
Whole == (o.imin = 1 /\ o.imax >= o.res /\ o.di = 1 /\ o.jmin = 1 /\ o.jmax >= o.res /\ o.dj = 1) => Cardinality(Pixels(o)) = o.res * o.res
=============================================================================
