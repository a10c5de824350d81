----------------------------- MODULE ChainTrace -----------------------------
(* Judges recorded runs of the first-order activity and occupancy simulators.
   Cfg.tables[b] = [init, keys], keys: sequence of [wd, q, labels, m]; m[p][i] = the successors (indices) of state i in
   the p-th matrix.  Units are identified by their label: table number = label \div 100.                          *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
G == INSTANCE Subgroups WITH Names <- {}, Values <- {}, Dates <- {}, MaxOps <- 0, sg <- 0, hist <- 0, last <- 0
C == INSTANCE Chain WITH N <- 1, S <- 1, Skip <- 0, Days <- 1, MaxSteps <- 0, Perms <- {}, Orders <- {}, Aware <- FALSE,
                         mats <- 0, labs <- 0, day <- 0, pos <- 0, key <- 0, it <- 0, idx <- 0, n <- 0, seen <- 0
Cfg == Traces[t].cfg
Flags == Range(Cfg.flags)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
PrevDay(d) == IF d[3] > 1 THEN <<d[1], d[2], d[3] - 1>>
              ELSE IF d[2] > 1 THEN <<d[1], d[2] - 1, MonthLen(d[1], d[2] - 1)>> ELSE <<d[1] - 1, 12, 31>>
NextDay(d) == IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
              ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
\* the day a moment belongs to, from refresh time to refresh time; and the number of steps since
DataDay(w) == IF w[4] >= Cfg.refresh THEN <<w[1], w[2], w[3]>> ELSE PrevDay(<<w[1], w[2], w[3]>>)
StepOf(w) == ((w[4] + 1440 - Cfg.refresh) % 1440) \div 10
\* weekday code: 0 none, 1..7 one day, 8 Monday to Friday, 9 weekend
WdCode(d) == IF Flags \cap G!DayFlags = {} THEN 0
             ELSE LET v == G!Weekday(Flags, G!IsoWeekday(d[1], d[2], d[3])) IN
                  IF v[1] = "i" THEN v[2][1] ELSE IF Len(v[2]) = 5 THEN 8 ELSE 9
QCode(d) == IF "quarter" \in Flags THEN G!Quarter(d[2]) ELSE 0
Key(b, d) == LET ks == Cfg.tables[b].keys
                 wd == IF Cfg.aware THEN WdCode(d) ELSE 0   q == IF Cfg.aware THEN QCode(d) ELSE 0
             IN ks[CHOOSE i \in DOMAIN ks : ks[i].wd = wd /\ ks[i].q = q]
Tab(x) == x \div 100
\* the labels that may follow x when the step starts at w (timed) or is step number w (untimed)
Succ(x, w) ==
  LET k == IF Cfg.timed THEN Key(Tab(x), DataDay(w)) ELSE Cfg.tables[Tab(x)].keys[1]
      p == IF Cfg.timed THEN StepOf(w) ELSE w
      m == k.m[((p + Cfg.skip) % Len(k.m)) + 1]
      i == C!Convert(k.labels, x)
      r == IF Len(m[i]) = 0 THEN m[1] ELSE m[i]
  IN {k.labels[j] : j \in Range(r)}
Later(w) == IF ~Cfg.timed THEN w + 1
            ELSE IF w[4] + 10 < 1440 THEN <<w[1], w[2], w[3], w[4] + 10>>
            ELSE LET d == NextDay(<<w[1], w[2], w[3]>>) IN <<d[1], d[2], d[3], w[4] + 10 - 1440>>
RECURSIVE Reach(_, _, _)
Reach(xs, w, k) == IF k = 0 THEN xs ELSE Reach(UNION {Succ(x, w) : x \in xs}, Later(w), k - 1)
Known(x) == Tab(x) \in DOMAIN Cfg.tables
Start(b, w) == LET i == Range(Cfg.tables[b].init)
               IN i \cup (IF Cfg.timed THEN LET k == Key(b, DataDay(w)) IN {k.labels[C!Convert(k.labels, x)] : x \in i} ELSE {})

\* ready: the first moment (refresh time) and the number of initialization steps
ReadyClauses(e) ==
  LET bs == {Tab(x) : x \in Range(e.x)}
      ok == \A x \in Range(e.x) : Known(x)
      all == [b \in bs |-> IF ~ok THEN {} ELSE IF e.k = 0 THEN Start(b, e.w) ELSE Reach(Range(Cfg.tables[b].init), e.w, e.k)]
  IN [ every_unit_has_a_state |-> Len(e.x) = Cfg.units /\ ok,
       initial_states_reachable |-> \A x \in Range(e.x) : x \in all[Tab(x)] ]
StepClauses(e) ==
  [ every_unit_has_a_state |-> Len(e.x) = Cfg.units /\ \A x \in Range(e.x) : Known(x),
    state_follows_matrix_of_the_time |-> (Len(e.x) = Cfg.units /\ Len(st) = Cfg.units) =>
        \A h \in 1..Len(e.x) : e.x[h] \in Succ(st[h], e.w) ]
\* many units in one state with two equally likely successors do not move in step
SpreadClauses(e) == [ households_independent |-> Cardinality(Range(e.x)) > 1 ]
RunClauses(e) == [ sequence_as_specified |-> e.seen = e.want ]
Clauses(e) ==
  CASE Raised(e)       -> {"raised"}
    [] e.op = "ready"  -> Failing(ReadyClauses(e))
    [] e.op = "step"   -> Failing(StepClauses(e))
    [] e.op = "spread" -> Failing(SpreadClauses(e))
    [] e.op = "run"    -> Failing(RunClauses(e))
    [] OTHER           -> {"unknown_event"}
NextSt(e) == IF e.op \in {"ready", "step"} THEN (IF \A x \in Range(e.x) : Known(x) THEN e.x ELSE <<>>) ELSE st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
