--------------------------- MODULE SemiMarkovTrace ---------------------------
(* Judges recorded runs of the semi-Markov simulators.  The drawn durations are not shown, so each unit is followed by
   the set of pairs <label, steps left> that the matrices and the duration distributions allow; a step is wrong when no
   pair allows it.  With one-point durations the set has one element and the judgement is exact.
   Tables as in ChainTrace, and keys[.].d[p][prev or 1][new] = durations of positive probability, idur[i] = those of the
   first state with offset i - 1.                                                                                   *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
K == INSTANCE ChainTrace
Cfg == Traces[t].cfg
AtLeast1(d) == IF d < 1 THEN 1 ELSE d
KeyAt(x, w) == IF Cfg.timed THEN K!Key(K!Tab(x), K!DataDay(w)) ELSE Cfg.tables[K!Tab(x)].keys[1]
StepNo(w) == IF Cfg.timed THEN K!StepOf(w) ELSE w
PairNext(pr, w) ==
  LET k == KeyAt(pr[1], w)
      i == K!C!Convert(k.labels, pr[1])
      p == ((StepNo(w) + Cfg.skip) % Len(k.m)) + 1
  IN IF pr[2] > 1 THEN {<<k.labels[i], pr[2] - 1>>}
     ELSE UNION {{<<k.labels[j], AtLeast1(d)>> : d \in Range(k.d[p][IF Cfg.byprev THEN i ELSE 1][j])} : j \in Range(k.m[p][i])}
After(ps, w) == UNION {PairNext(pr, w) : pr \in ps}
RECURSIVE Reach(_, _, _)
Reach(ps, w, k) == IF k = 0 THEN ps ELSE Reach(After(ps, w), K!Later(w), k - 1)
Begin(b) == UNION {{<<x, AtLeast1(d)>> : d \in Range(Cfg.tables[b].idur[(x % 100) + 1])} : x \in Range(Cfg.tables[b].init)}
OfLabel(ps, x) == {pr \in ps : pr[1] = x}
ReadyPairs(e) ==
  LET all == [b \in {K!Tab(x) : x \in Range(e.x)} |-> Reach(Begin(b), e.w, e.k)]
  IN [h \in 1..Len(e.x) |-> OfLabel(all[K!Tab(e.x[h])], e.x[h])]
StepPairs(e) == [h \in 1..Len(e.x) |-> OfLabel(After(st[h], e.w), e.x[h])]
Sane(e) == Len(e.x) = Cfg.units /\ \A x \in Range(e.x) : K!Known(x)
ReadyClauses(e) == [ every_unit_has_a_state |-> Sane(e),
                     initial_states_reachable |-> Sane(e) => \A h \in DOMAIN e.x : ReadyPairs(e)[h] # {} ]
StepClauses(e) == [ every_unit_has_a_state |-> Sane(e),
                    duration_and_matrix_respected |-> (Sane(e) /\ Len(st) = Cfg.units) => \A h \in DOMAIN e.x : st[h] # {} => StepPairs(e)[h] # {} ]
RunClauses(e) == [ sequence_as_specified |-> e.seen = e.want ]
\* units that share distributions do not draw the same durations and states
SpreadClauses(e) == [ units_independent |-> Cardinality(Range(e.x)) > 1 ]
Clauses(e) ==
  CASE Raised(e)       -> {"raised"}
    [] e.op = "ready"  -> Failing(ReadyClauses(e))
    [] e.op = "step"   -> Failing(StepClauses(e))
    [] e.op = "run"    -> Failing(RunClauses(e))
    [] e.op = "spread" -> Failing(SpreadClauses(e))
    [] OTHER           -> {"unknown_event"}
NextSt(e) == CASE e.op = "ready" /\ Sane(e) -> ReadyPairs(e)
               [] e.op = "step" /\ Sane(e) /\ Len(st) = Cfg.units -> StepPairs(e)
               [] e.op \in {"ready", "step"} -> <<>>
               [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
