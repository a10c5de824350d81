---------------------------- MODULE ObserveTrace ----------------------------
(* Judges observed runs of the real simulators against a run of the same seed that nobody observed.
   cfg.ref[k + 1][g]: what getter g shows (a digest) after k steps in the unobserved run; cfg.ent: the digests of the
   entries of the result, household by household (<<>>: not an array over households); cfg.rng[k + 1]: the state of the
   random generator; cfg.tail, cfg.tailrng: the same much later.  SimCore explains why a getter may only ever show the current step: Fresh, CacheFresh, Counter.  *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
Cfg == Traces[t].cfg
Ref == Cfg.ref[st.k + 1]
Log(g) == [i \in 1..(st.k - st.base) |-> Cfg.ref[st.base + i][g]]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "ready" -> IF e.rng = Cfg.rng[1] THEN {} ELSE {"same_run"}
    [] e.op = "step" -> IF e.rng = Cfg.rng[st.k + 2] THEN {} ELSE {"same_run"}
    [] e.op = "get" -> IF e.d = Ref[e.g] THEN {} ELSE {"getter_shows_current_state"}
    [] e.op = "index" -> IF e.d = Cfg.ent[st.k + 1][e.g][e.i + 1] THEN {} ELSE {"household_entry"}
    [] e.op = "all" -> (IF \A g \in DOMAIN Ref : e.d[g] = Ref[g] THEN {} ELSE {"getter_shows_current_state"})
                       \cup (IF e.after = Cfg.rng[st.k + 1] THEN {} ELSE {"observing_draws_nothing"})
    [] e.op = "tail" -> (IF \A g \in DOMAIN e.d : e.d[g] = Cfg.tail[e.i][g] THEN {} ELSE {"observed_run_goes_on_the_same"})
                        \cup (IF e.rng = Cfg.tailrng[e.i] THEN {} ELSE {"same_run"})
    [] e.op = "kept" -> IF e.d = Cfg.ref[e.k + 1][e.g] THEN {} ELSE {"handed_out_value_stays"}
    [] e.op = "log" -> IF e.d = Log(e.g) THEN {} ELSE {"log_aligned"}
    [] e.op = "clear" -> {}
    [] OTHER -> {"unknown_event"}
NextSt(e) == CASE e.op = "step" -> [st EXCEPT !.k = @ + 1]
               [] e.op = "clear" -> [st EXCEPT !.base = st.k + 1]
               [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = [k |-> 0, base |-> 0] /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
