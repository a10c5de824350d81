---------------------------- MODULE LightingTrace ----------------------------
(* Judges recorded runs of the lighting simulators with the operators of Lighting.
   cfg.power[h][b] rating of bulb b in household h (0: not installed), cfg.rel, cfg.thr as recorded from the code;
   exact: all draws of a step were e.u (128ths); else what holds for every draw: ratings are powers of two (config),
   so the power shows which bulbs are on.                                                                          *)
EXTENDS TraceLib, Lighting
VARIABLES t, l, st, bad
Cfg == Traces[t].cfg
Hs == 1..Cfg.nh
Bs(h) == 1..Len(Cfg.power[h])
\* ---- occupancy model
FClauses(e) == [
  follows_occupancy_and_irradiance |-> \A h \in Hs : e.demand[h] = FisherPower(e.occ[h], Cfg.use, e.irr, Cfg.lo, Cfg.hi),
  no_light_when_inactive |-> \A h \in Hs : e.occ[h] = 0 => e.demand[h] = 0 ]
\* ---- bulb model
Off == [h \in Hs |-> [b \in Bs(h) |-> 0]]
\* a draw too close to the probability to be decided from the rounded numbers: the rest of the trace is judged loosely
Undecided(e) == \E h \in Hs : \E b \in Bs(h) : e.occ[h] > 0 /\ Close(e.u, Cfg.eff[e.occ[h] + 1], Cfg.rel[h][b])
DarkFor(e, h) == (e.irr * 1000 < Cfg.thr[h]) \/ e.u * 20 < 128
NextLeft(e) == [h \in Hs |->
  LightStep(st.left[h], [b \in Bs(h) |-> Cfg.power[h][b] > 0], [b \in Bs(h) |-> DarkFor(e, h)],
            [b \in Bs(h) |-> Sure(e.u, Cfg.eff[e.occ[h] + 1], Cfg.rel[h][b])],
            [b \in Bs(h) |-> Duration(Cfg.low, Cfg.high, Cfg.cdf, e.u)], e.occ[h])]
Judged(e) == Cfg.exact /\ st.sure /\ ~Undecided(e)
Bit(d, p) == (d \div p) % 2 = 1
On(d, h) == {b \in Bs(h) : Cfg.power[h][b] > 0 /\ Bit(d, Cfg.power[h][b])}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Decodable == Cfg.algo = "config"
Common(e) == [
  power_of_installed_bulbs |-> Decodable => \A h \in Hs : e.demand[h] >= 0 /\ SumOver(Cfg.power[h], On(e.demand[h], h)) = e.demand[h],
  gains_are_the_power |-> e.gains = e.demand /\ e.again = e.demand,
  no_light_when_inactive |-> \A h \in Hs : e.occ[h] = 0 => e.demand[h] = 0 ]
Exact(e, N) == [
  bulb_by_bulb |-> \A h \in Hs : e.demand[h] = HouseholdPower(Cfg.power[h], N[h]) ]
\* loose: which bulbs are on, since how many steps
MinDur == Cfg.low[1]
NextAge(e) == [h \in Hs |-> [b \in Bs(h) |-> IF b \in On(e.demand[h], h) THEN st.age[h][b] + 1 ELSE 0]]
Loose(e) == [
  stays_on_for_its_duration |-> Decodable => \A h \in Hs : \A b \in Bs(h) :
      (st.age[h][b] > 0 /\ b \notin On(e.demand[h], h)) => (e.occ[h] = 0 \/ st.age[h][b] >= MinDur) ]
\* ---- what is sampled at the start
NBulbs(h) == Cardinality({b \in Bs(h) : Cfg.power[h][b] > 0})
Init0(e) == [
  starts_off |-> \A h \in Hs : e.demand[h] = 0,
  bulbs_of_a_configuration |-> IF Cfg.algo = "config"
     THEN \A h \in Hs : IF Cfg.initexact THEN Cfg.power[h] = Cfg.configs[1 + (Cfg.k % Len(Cfg.configs))] ELSE Cfg.power[h] \in Range(Cfg.configs)
     ELSE \A h \in Hs : /\ NBulbs(h) >= 1
                        /\ \A b \in Bs(h) : Cfg.power[h][b] # 0 => Cfg.power[h][b] \in Range(Cfg.ratings)
                        /\ Cfg.initexact => (/\ NBulbs(h) = NumberOfBulbs(Cfg.nmean, Cfg.nstd, Cfg.z[1 + ((h - 1) % Len(Cfg.z))])
                                             /\ \A b \in Bs(h) : Cfg.power[h][b] \in {0, Cfg.ratings[Interval(Cfg.pen, Cfg.u0)]}),
  threshold_as_sampled |-> Cfg.initexact => \A h \in Hs : Cfg.thr[h] = 1000 * (Cfg.mean + Cfg.std * Cfg.z[1 + ((h - 1) % Len(Cfg.z))]),
  relative_use_as_sampled |-> Cfg.initexact => \A h \in Hs : \A b \in Bs(h) :
      LET j == CHOOSE j \in 0..7 : Cfg.u0 = 2 ^ (7 - j) IN Cfg.rel[h][b] \in (j * LogStep - 20)..(j * LogStep + 20) ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "fready" -> Failing(FClauses(e))
    [] e.op = "fstep" -> Failing(FClauses(e)) \cup (IF e.kept THEN {} ELSE {"inputs_untouched"})
    [] e.op = "ready" -> Failing(Init0(e)) \cup Failing(Common(e))
    [] e.op = "step" -> Failing(Common(e)) \cup (IF e.kept THEN {} ELSE {"inputs_untouched"})
         \cup (IF Judged(e) THEN Failing(Exact(e, NextLeft(e))) ELSE IF Decodable THEN Failing(Loose(e)) ELSE {})
    [] OTHER -> {"unknown_event"}
NextSt(e) == CASE e.op = "ready" -> [left |-> Off, age |-> Off, sure |-> TRUE]
               [] e.op = "step" -> [left |-> IF Judged(e) THEN NextLeft(e) ELSE Off, sure |-> Judged(e), age |-> IF Decodable THEN NextAge(e) ELSE Off]
               [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
