--------------------------- MODULE WorldlineTrace ---------------------------
EXTENDS Worldline
CONSTANT Mode      \* which of the properties is decided: P08, P14 or P15
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, memo   \* memo: answers known, <<time, date, component>> -> value
Ev == Traces[t].ev[l]
Forget == memo' = <<>>
Remember == UNCHANGED memo
\* ---- extensions
FillOK(e) == (e.err = "-" \/ e.stopped) /\
             (e.err = "-" => /\ e.kept /\ e.mono
                             /\ e.nb >= 0 /\ e.na >= 0
                             /\ (e.side = 1 => e.nb = 0) /\ (e.side = -1 => e.na = 0) /\ (e.side = 0 => e.nb = 0 /\ e.na = 0)
                             /\ e.over <= 1
                             /\ (e.reached \/ e.stopped))
\* ---- queries
Slot(d, k) == d[1] \o " " \o d[2] \o " " \o k     \* time, date, component
AnswersOK(e) == \A i \in 1..Len(e.ans) : LET a == e.ans[i] IN
      /\ a.near
      /\ \A x \in 1..Len(a.vals) :
            /\ a.stored => a.vals[x][2] = a.vals[x][3]
            /\ (Slot(a.date, a.vals[x][1]) \in DOMAIN memo) => memo[Slot(a.date, a.vals[x][1])] = a.vals[x][2]
            \* asked twice in one list
            /\ \A j \in 1..(i - 1) : e.ans[j].date = a.date => (e.ans[j].vals[x] = a.vals[x])
New(e) == [s \in UNION {{Slot(e.ans[i].date, e.ans[i].vals[x][1]) : x \in 1..Len(e.ans[i].vals)} : i \in 1..Len(e.ans)} |->
             LET i == CHOOSE i \in 1..Len(e.ans) : \E x \in 1..Len(e.ans[i].vals) : Slot(e.ans[i].date, e.ans[i].vals[x][1]) = s
                 x == CHOOSE x \in 1..Len(e.ans[i].vals) : Slot(e.ans[i].date, e.ans[i].vals[x][1]) = s
             IN e.ans[i].vals[x][2]]
\* ---- comparison with an object built afresh in the current configuration, having computed the same since
SameOK(e) == /\ e.conf = Conf /\ e.st0 = st0 /\ e.nsince = Len(since)
             /\ (Mode = "P08" => e.res = "same")
TStep == CASE Ev.op = "metric" -> SetMetric(Ev.g) /\ Forget
           [] Ev.op = "mset" -> ChangeMetric(Ev.g, Ev.j) /\ (IF cur = Ev.g /\ own = 0 THEN Forget ELSE Remember)
           [] Ev.op = "own" -> ChangeOwn(Ev.j) /\ Forget
           [] Ev.op = "init" -> InitCoord(Ev.v) /\ Forget
           [] Ev.op = "ptrans" -> Track(Ev.b) /\ (IF Ev.b = pt THEN Remember ELSE Forget)
           [] Ev.op = "reset" -> Reset /\ Forget
           [] Ev.op = "set" -> Set(Ev.n, Ev.v) /\ Forget
           [] Ev.op = "copy" -> Copy /\ (IF Kind = "star" THEN Forget ELSE Remember)
           [] Ev.op = "fill" -> /\ Compute([op |-> "fill", d |-> Ev.d], 0, 0) /\ Remember
                                /\ (Mode = "P14" => (FillOK(Ev) = TRUE))
           [] Ev.op = "query" -> /\ Compute([op |-> "query", m |-> Ev.m, q |-> Ev.q, k |-> Ev.k], 0, 0)
                                 /\ (Mode = "P15" => (AnswersOK(Ev) = TRUE))
                                 /\ memo' = IF Mode = "P15" THEN New(Ev) @@ memo ELSE memo
           [] Ev.op = "same" -> (SameOK(Ev) = TRUE) /\ UNCHANGED state /\ Remember
           [] OTHER -> FALSE
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1 /\ memo = <<>>
TNext == \/ l <= Len(Traces[t].ev) /\ TStep /\ l' = l + 1 /\ UNCHANGED <<t, hist>>
         \/ l > Len(Traces[t].ev) /\ UNCHANGED <<state, hist, t, l, memo>>
=============================================================================
