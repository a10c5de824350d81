---------------------------- MODULE SimCoreTrace ----------------------------
(* Judges recorded runs of small simulators built on the base classes: getters, logs, parts of a multi simulator. *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
C == INSTANCE SimCore WITH Getters <- {}, Logged <- {}, MaxInit <- 0, MaxSteps <- 0, MaxObs <- 0, k <- 0, count <- 0,
                           cache <- 0, log <- 0, base <- 0, phase <- 0, todo <- 0, shown <- 0, obs <- 0, hist <- 0
Cfg == Traces[t].cfg
Start == [k |-> 0, c |-> 0, phase |-> "init", logs |-> [a \in Range(Cfg.attrs) |-> <<>>], vis |-> <<>>, len |-> 0]

\* the value attribute a shows after kk state changes, households off..off+n-1
Sel(s, off, n) == SubSeq(s, off + 1, off + n)
Value(a, off, n, kk) ==
  CASE a = "get_x" -> [v |-> Sel(C!X(off + n, kk), off, n)]
    [] a = "get_y" -> [v |-> Sel(C!Y(off + n, kk), off, n)]
    [] a = "get_d" -> [p |-> Sel(C!X(off + n, kk), off, n), q |-> Sel(C!Y(off + n, kk), off, n)]
    [] a = "level" -> [v |-> <<kk>>]
    [] a = "current_time" -> [v |-> <<kk>>]
Agg(r) == [f \in DOMAIN r |-> <<SumSeq(r[f])>>]
Rec(a, off, n, kk) == IF a \in Range(Cfg.agg) THEN Agg(Value(a, off, n, kk)) ELSE Value(a, off, n, kk)
Front1(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
WantLog(a, off, n, recs) == LET s == Front1(recs) IN [i \in 1..Len(s) |-> Rec(a, off, n, s[i])]
VisitAll(logs, kk) == [a \in DOMAIN logs |-> Append(logs[a], kk)]

StepClauses(e) == [ counter |-> e.count = st.c + 1, after_ready |-> st.phase = "run" ]
ReadyClauses(e) == [ counter |-> e.count = Cfg.initk ]
GetClauses(e) ==
  LET want == Value(e.g, 0, Cfg.n, st.k)
  IN IF e.i < 0 THEN [ getter_shows_current_state |-> e.v = want ]
     ELSE [ household_entry |-> e.v = [v |-> <<want.v[e.i + 1]>>] ]
LogClauses(e) == [ log_aligned |-> e.recs = WantLog(e.attr, 0, Cfg.n, st.logs[e.attr]) ]
PartClauses(e) == [ part_log_aligned |-> e.recs = WantLog(e.attr, e.off, e.n, st.vis) ]
LenClauses(e) == [ log_length |-> (st.len >= 0) => e.n = st.len ]
OrigClauses(e) == [ own_logger |-> e.n = 0 /\ e.recs = 0 /\ ~e.same ]
CopyClauses(e) == [ copy_is_empty |-> e.n = 0 /\ e.recs = 0, copy_attributes |-> e.attrs = Cfg.attrs ]
MergeClauses(e) ==
  [ merge_refused_iff_lengths_differ |-> e.refused = (e.la # e.lb),
    merge_keeps_both |-> ~e.refused => (e.after = e.before /\ e.n = e.la) ]
SubGetClauses(e) == [ single_attribute_default |-> e.refused = (Len(Cfg.attrs) # 1),
                      unknown_attribute_refused |-> e.unknown ]

Clauses(e) ==
  CASE Raised(e)      -> {"raised"}
    [] e.op = "ready" -> Failing(ReadyClauses(e))
    [] e.op = "step"  -> Failing(StepClauses(e))
    [] e.op = "get"   -> Failing(GetClauses(e))
    [] e.op = "log"   -> Failing(LogClauses(e))
    [] e.op = "part"  -> Failing(PartClauses(e))
    [] e.op = "len"   -> Failing(LenClauses(e))
    [] e.op = "orig"  -> Failing(OrigClauses(e))
    [] e.op = "copy"  -> Failing(CopyClauses(e))
    [] e.op = "merge" -> Failing(MergeClauses(e))
    [] e.op = "default" -> Failing(SubGetClauses(e))
    [] e.op = "clear" -> {}
    [] OTHER          -> {"unknown_event"}

NextSt(e) ==
  CASE e.op = "ready" -> [k |-> Cfg.initk, c |-> e.count, phase |-> "run",
                          logs |-> VisitAll(st.logs, Cfg.initk), vis |-> <<Cfg.initk>>, len |-> 1]
    [] e.op = "step"  -> [st EXCEPT !.k = @ + 1, !.c = e.count, !.logs = VisitAll(@, st.k + 1),
                                    !.vis = Append(@, st.k + 1), !.len = IF @ >= 0 THEN @ + 1 ELSE -1]
    [] e.op = "clear" -> [st EXCEPT !.logs = [a \in DOMAIN st.logs |->
                                                IF e.attrs = <<>> \/ a \in Range(e.attrs) THEN <<>> ELSE st.logs[a]],
                                    !.len = IF e.attrs = <<>> THEN 0 ELSE -1]
    [] OTHER          -> st

Init == t \in 1..Len(Traces) /\ l = 0 /\ st = Start /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
