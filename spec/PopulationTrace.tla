-------------------------- MODULE PopulationTrace --------------------------
(* Judges recorded samplings of populations. *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
P == INSTANCE Population WITH Weights <- {}, MaxN <- 0, w <- 0, n <- 0, k <- 0, counts <- 0, algo <- 0
Cfg == Traces[t].cfg
SampleClauses(e) ==
  LET c == e.counts IN
  [ one_count_per_subgroup |-> Len(c) = Len(e.w),
    non_negative_integers |-> e.ints /\ P!NonNegative(c),
    adds_up |-> P!AddsUp(c, e.n),
    empty_subgroups_get_none |-> Len(c) = Len(e.w) => P!EmptyGetNone(c, e.w),
    within_one_household |-> (e.algo = "real_population" /\ Len(c) = Len(e.w)) => P!WithinOne(c, e.w, e.n),
    input_untouched |-> e.same ]
Clauses(e) ==
  CASE Raised(e)       -> {"raised"}
    [] e.op = "sample" -> Failing(SampleClauses(e))
    [] e.op = "refuse" -> Failing([refused |-> e.refused])
    [] OTHER           -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t /\ st' = st
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
