---------------------------- MODULE LoadSimTrace ----------------------------
(* Judges recorded runs of the load simulator.  e.made: how often every part was stepped in this load step, e.seen /
   e.heat: digests of what the parts were given, e.prod: digests of what the parts show after the step, e.ext: digests
   of the inputs from outside; times in minutes since the start (part not there or not timed: -1).                   *)
EXTENDS TraceLib, LoadSim
VARIABLES t, l, st, bad
Cfg == Traces[t].cfg
Conf == [climate |-> Cfg.climate, heating |-> Cfg.heating]
Near(a, b) == a - b \in -3..3
Sums(e) == \A h \in 1..Cfg.nh : Near(e.power[h], e.p_appl[h] + e.p_light[h] + (IF Cfg.heating THEN e.p_heat[h] ELSE 0))
Times(e, k) == [
  clock |-> e.clock = k /\ e.nstep = k,
  parts_on_the_same_time |-> /\ e.t_appl = k /\ (Cfg.climate => e.t_clim = k) /\ (e.t_act >= 0 => e.t_act = 10 * ActivitySteps(k)),
  total_is_the_sum |-> Sums(e),
  shows_the_heating |-> Cfg.heating => e.heatview = e.heatown,
  households |-> \A x \in {"power", "p_appl", "p_light"} : Len(e[x]) = Cfg.nh ]
Stepped(e) == [
  each_part_steps_once |-> e.made = Makes(Conf, st.k),
  appliances_see_this_occupancy |-> e.seen.appl_occ = Sees(e.ext, e.prod).appl_occ,
  light_sees_this_moment |-> /\ e.seen.light_occ = Sees(e.ext, e.prod).light_occ
                             /\ e.seen.light_irr = Sees(e.ext, e.prod).light_irr,
  heating_sees_this_moment |-> Cfg.heating => e.heat = SeesHeat(e.ext, e.prod),
  not_refused |-> ~Refused(Conf, e.ext) ]
NotStepped(e) == [
  refused_only_without_climate |-> Refused(Conf, e.ext),
  nothing_stepped |-> e.made = [climate |-> 0, activity |-> 0, appliances |-> 0, light |-> 0, heating |-> 0] ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "ready" -> Failing(Times(e, 0))
    [] e.op = "step" -> Failing(Times(e, st.k + 1)) \cup Failing(Stepped(e))
    [] e.op = "refused" -> Failing(Times(e, st.k)) \cup Failing(NotStepped(e))
    [] OTHER -> {"unknown_event"}
NextSt(e) == CASE e.op = "step" -> [k |-> st.k + 1] [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = [k |-> 0] /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
