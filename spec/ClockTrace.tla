----------------------------- MODULE ClockTrace -----------------------------
(* Judges recorded runs of real time-aware simulators with the operators of Clock. *)
EXTENDS TraceLib
CONSTANTS DAY, FOUR, HOUR
VARIABLES t, l, st, bad
\* Clock's exhaustive-configuration parameters and variables are not used here
C == INSTANCE Clock WITH Starts <- {}, Steps <- {}, InitTimes <- {}, InitDts <- {}, Refreshes <- {}, MaxRun <- 0,
                         cfg <- 0, phase <- 0, now <- 0, first <- 0, n <- 0, calls <- 0

Cfg == Traces[t].cfg
Begun == [phase |-> "init", now |-> <<>>, n |-> 0, runs |-> 0]

StepClauses(e) ==
  LET from == IF st.now = <<>> THEN e.a ELSE st.now
      to   == C!Add(from, Cfg.step)
  IN [ phase_ok    |-> st.phase \in {"init", "run"},
       first_reachable |-> (st.now = <<>>) =>
             /\ C!FirstOk(e.a, Cfg.kind, Cfg.arg, Cfg.start, Cfg.step),
       clock_at_step_start |-> e.a = from,
       clock_after_step |-> e.b = to,
       counter     |-> e.n = st.n + 1,
       no_init_step_beyond_start |-> (st.phase = "init") => C!Lt(from, Cfg.start),
       callbacks   |-> e.shows = C!StepShows(Cfg.cb, e.a, e.b, Cfg.refresh) ]

ReadyClauses(e) ==
  [ initialised_once |-> st.phase = "init",
    clock_is_start   |-> e.now = Cfg.start,
    all_whole_steps_run |-> IF st.now = <<>> THEN C!FirstOk(Cfg.start, Cfg.kind, Cfg.arg, Cfg.start, Cfg.step)
                            ELSE st.now = Cfg.start,
    counter_is_steps_run |-> e.n = st.n,
    time_zone_kept   |-> e.tzok ]

BeginClauses(e) == [ refusal |-> e.refused = C!Refused(Cfg.kind, Cfg.arg, Cfg.start) ]

Clauses(e) ==
  CASE Raised(e)       -> {"raised"}
    [] e.op = "begin"  -> Failing(BeginClauses(e))
    [] e.op = "step"   -> Failing(StepClauses(e))
    [] e.op = "ready"  -> Failing(ReadyClauses(e))
    [] OTHER           -> {"unknown_event"}

NextSt(e) ==
  CASE e.op = "begin" -> [Begun EXCEPT !.phase = IF e.refused THEN "refused" ELSE "init"]
    [] e.op = "step"  -> [st EXCEPT !.now = e.b, !.n = e.n]
    [] e.op = "ready" -> [st EXCEPT !.phase = "run", !.now = e.now, !.n = e.n]
    [] OTHER          -> st

Init == t \in 1..Len(Traces) /\ l = 0 /\ st = Begun /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
