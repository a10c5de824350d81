---------------------------- MODULE HeatingTrace ----------------------------
(* Judges recorded runs of the heating modules with the operators of Heating.  Numbers are in units of 1/U; an event that
   is not exact was rounded to them, which the comparisons allow for.                                                  *)
EXTENDS TraceLib, Heating
VARIABLES t, l, st, bad
Cfg == Traces[t].cfg
Hs == 1..Cfg.nh
U == 1024
NaN == 0 - 999999999
Given(x) == x # NaN
Ext(x, base) == IF Given(x) THEN x ELSE base
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, tol, exact) == IF exact THEN a = b ELSE Abs(a - b) <= tol
P(h) == Cfg.hh[h]
HystOk(seen, on, temp, target, band, exact) ==
  IF exact THEN seen = Hyst(on, temp, target, band) ELSE \E x \in {0 - 1, 0, 1} : seen = Hyst(on, temp + x, target, band)
ThOk(e, h, was, T, tg, exact) ==
  /\ HystOk(e.th[h].hw, was.hw, T.hw, tg.dhw, Cfg.band.hw, exact)
  /\ HystOk(e.th[h].sh, was.sh, T.sh, tg.sh, Cfg.band.sh, exact)
  /\ HystOk(e.th[h].em, was.em, T.em, tg.em, Cfg.band.em, exact)
Targets(e, h, tg) == [sh |-> Ext(e.xt.sh[h], tg.sh), dhw |-> Ext(e.xt.dhw[h], tg.dhw), em |-> Ext(e.xt.em[h], tg.em)]
\* ---- demand
DemandOk(hd, p, T, tg, dhw, out, algo, band, exact) ==
  /\ Near(hd.dhw, WaterDemand(p, T, dhw, tg.dhw, band.hw), p.Kc + 2 * dhw + 2 * p.Hl + 2, exact)
  /\ IF algo = "room_estimation"
     THEN Near(hd.sh, RoomDemand(p, T, tg.sh, band.sh, out, p.Hs), p.Ki + 2 * p.Hem + 2 * (p.Hv + p.Hs) + 2, exact)
     ELSE Near(hd.sh, EmitterDemand(p, T, tg.em, band.em), p.Ke + 2 * p.Hem + 2, exact)
\* ---- network: K times the change of a node is the heat that flowed into it
NetOk(p, T, T1, in, exact) == [
  building |-> Near(p.Kb * (T1.b - T.b), FlowB(p, T, in), p.Kb + p.Hob + p.Hbi + 2, exact),
  interior |-> Near(p.Ki * (T1.i - T.i), FlowI(p, T, in), p.Ki + p.Hbi + p.Hv + p.Hem + p.Hl + 4, exact),
  emitter |-> Near(p.Ke * (T1.e - T.e), FlowE(p, T, in), p.Ke + p.Hem + 2, exact),
  cylinder |-> Near(p.Kc * (T1.c - T.c), FlowC(p, T, in), p.Kc + p.Hl + in.dhw + 2, exact),
  cold |-> T1.w = T.w ]
\* ---- what a system consumes; o: heat delivered
Load(phi, max, z) == IF max = 0 THEN 0 ELSE (phi * z) \div max
Pumps(p, c) == (IF c.space THEN p.pump ELSE p.standby) * U
Elec(p, c, o) == IF p.fuel = "Electricity" /\ c.heater THEN p.flow * (Load(o.sh, p.maxS, 1000) + Load(o.dhw, p.maxW, 1000)) ELSE 0
ElecTol(p) == p.flow * (4 + (IF p.maxS = 0 THEN 0 ELSE 1000 \div p.maxS) + (IF p.maxW = 0 THEN 0 ELSE 1000 \div p.maxW)) + 2

GasW(p, c, o) == IF p.fuel = "Mainsgas" /\ c.heater THEN Load(o.sh, p.maxS, p.toW) + Load(o.dhw, p.maxW, p.toW) ELSE 0
GasTol(p) == 4 + (IF p.maxS = 0 THEN 0 ELSE p.toW \div p.maxS) + (IF p.maxW = 0 THEN 0 ELSE p.toW \div p.maxW)
GasFlow(p, c, o) == IF p.fuel = "Mainsgas" /\ c.heater THEN p.flow * (Load(o.sh, p.maxS, 4) + Load(o.dhw, p.maxW, 4)) ELSE 0
Cap(p) == [s |-> p.maxS * U, w |-> p.maxW * U]
Off == [heater |-> FALSE, water |-> FALSE, space |-> FALSE]
NoHeat == [dhw |-> 0, sh |-> 0]
\* ---- five modules together
Split5(e, h) == IF Given(e.x[h]) THEN Split(e.x[h], st.ctl[h], st.hd[h]) ELSE [dhw |-> NaN, sh |-> NaN]
ExtW(e, h) == IF Given(e.xw[h]) THEN e.xw[h] ELSE IF Given(e.xdw[h]) THEN e.xdw[h] ELSE Split5(e, h).dhw
ExtS(e, h) == IF Given(e.xs[h]) THEN e.xs[h] ELSE IF Given(e.xds[h]) THEN e.xds[h] ELSE Split5(e, h).sh
OutOk(ho, o, tol) == Abs(ho.dhw - o.dhw) <= tol /\ Abs(ho.sh - o.sh) <= tol
Ready5(e) == [
  starts_near_target |-> \A h \in Hs : LET T == e.T[h] p == P(h) IN
     /\ T.i >= p.sh - U /\ T.i <= p.sh + U /\ 2 * T.b = Cfg.out0 + p.sh
     /\ T.e = (IF T.i >= p.sh THEN T.i ELSE p.nominal * U) /\ T.c >= 50 * U /\ T.c <= 52 * U,
  set_point |-> \A h \in Hs : e.tg[h] = [sh |-> P(h).sh, dhw |-> P(h).hw, em |-> P(h).em],
  hysteresis |-> \A h \in Hs : ~e.th[h].hw /\ ~e.th[h].sh /\ ~e.th[h].em,
  controls |-> \A h \in Hs : e.ctl[h] = Off,
  heat_allocation |-> \A h \in Hs : e.ho[h].dhw = 0 /\ e.ho[h].sh = 0 /\ e.ho[h].total = 0 ]
Step5(e) ==
  LET T0(h) == [st.T[h] EXCEPT !.c = Ext(e.xc[h], @)]
      x == e.exact /\ st.exact
      eps == IF x THEN 0 ELSE 2
      C(h) == Given(e.xc[h])
      o(h) == Outputs(e.ctl[h], e.hd[h], Cap(P(h)).s, Cap(P(h)).w)
      in(h) == [out |-> e.out, gains |-> U * (e.gains[h] + e.irr * P(h).mult), sh |-> e.ho[h].sh, dhwheat |-> e.ho[h].dhw, dhw |-> e.dhw[h]]
      netok(h) == NetOk(P(h), T0(h), e.T[h], in(h), x)
      anyext(h) == Given(ExtS(e, h)) \/ Given(ExtW(e, h))
      extcyl(h) == e.dhw[h] * (e.tg[h].dhw - T0(h).w) + P(h).Hl * (e.T[h].c - e.T[h].i)
      gd(h) == IF ~e.ctl[h].water THEN 0 ELSE IF C(h) THEN extcyl(h) ELSE e.hd[h].dhw
  IN [
  set_point |-> \A h \in Hs, k \in {"sh", "dhw", "em"} : ~Given(e.xt[k][h]) => e.tg[h][k] = st.tg[h][k],
  external_set_point |-> \A h \in Hs : e.tg[h] = Targets(e, h, st.tg[h]),
  hysteresis |-> \A h \in Hs : ThOk(e, h, st.th[h], [hw |-> T0(h).c, sh |-> T0(h).i, em |-> T0(h).e], e.tg[h], x),
  controls |-> \A h \in Hs : ~C(h) => e.ctl[h] = Controls(P(h).combi, FALSE, e.dhw[h], e.th[h]),
  external_cylinder_controls |-> \A h \in Hs : C(h) => e.ctl[h] = Controls(P(h).combi, TRUE, e.dhw[h], e.th[h]),
  demand |-> \A h \in Hs : DemandOk(e.hd[h], P(h), T0(h), e.tg[h], e.dhw[h], e.out, Cfg.algo, Cfg.band, x),
  heat_allocation |-> \A h \in Hs : (~Given(ExtW(e, h)) => Abs(e.ho[h].dhw - o(h).dhw) <= eps) /\ (~Given(ExtS(e, h)) => Abs(e.ho[h].sh - o(h).sh) <= eps),
  external_heat |-> \A h \in Hs : (Given(ExtW(e, h)) => Abs(e.ho[h].dhw - ExtW(e, h)) <= eps) /\ (Given(ExtS(e, h)) => Abs(e.ho[h].sh - ExtS(e, h)) <= eps),
  total_heat |-> \A h \in Hs : Abs(e.ho[h].total - e.ho[h].dhw - e.ho[h].sh) <= eps,
  energy_balance |-> \A h \in Hs : \A k \in DOMAIN netok(h) : netok(h)[k],
  demand_getters |-> \A h \in Hs :
     /\ Abs(e.gd[h] - gd(h)) <= (IF x THEN 0 ELSE 2 * e.dhw[h] + 2 * P(h).Hl + 2)
     /\ e.gs[h] = (IF e.ctl[h].space THEN e.hd[h].sh ELSE 0)
     /\ Abs(e.gt[h] - (IF e.ctl[h].heater THEN e.gd[h] + e.gs[h] ELSE 0)) <= eps
     /\ e.room[h] = e.T[h].i,
  fuel_from_heat |-> \A h \in Hs : ~anyext(h) => Abs(e.power[h] - Pumps(P(h), e.ctl[h]) - Elec(P(h), e.ctl[h], e.ho[h])) <= ElecTol(P(h)),
  external_power |-> \A h \in Hs : (anyext(h) => e.power[h] = 0) /\ e.energy[h] = e.power[h],
  inputs_untouched |-> e.untouched ]
\* ---- the modules alone
ReadyT(e) == [
  set_point |-> \A h \in Hs : e.tg[h].em >= 0,
  hysteresis |-> \A h \in Hs :
     (~e.given => (~e.th[h].hw /\ ~e.th[h].sh /\ ~e.th[h].em)) /\ (e.given => (e.th[h].hw = (e.temp[h].hw < e.tg[h].dhw) /\ e.th[h].sh = (e.temp[h].sh < e.tg[h].sh) /\ e.th[h].em = (e.temp[h].em < e.tg[h].em))) ]
StepT(e) == [
  set_point |-> \A h \in Hs : e.tg[h] = Targets(e, h, st.tg[h]),
  hysteresis |-> \A h \in Hs : ThOk(e, h, st.th[h], e.temp[h], e.tg[h], TRUE) ]
StepC(e) == [ controls |-> \A h \in Hs : e.ctl[h] = Controls(Cfg.combi[h], e.ext[h], e.dhw[h], e.th[h]) ]
SysClauses(e, first) ==
  LET o(h) == IF first /\ \A j \in Hs : e.ctl[j] = Off THEN NoHeat ELSE Outputs(e.ctl[h], e.hd[h], Cap(P(h)).s, Cap(P(h)).w) IN [
  heat_allocation |-> \A h \in Hs : e.ho[h].dhw = o(h).dhw /\ e.ho[h].sh = o(h).sh,
  total_heat |-> \A h \in Hs : e.ho[h].total = e.ho[h].dhw + e.ho[h].sh,
  fuel_from_heat |-> \A h \in Hs : LET p == P(h) c == e.ctl[h] h1 == e.ho[h] IN
     /\ e.pumps[h] = Pumps(p, c)
     /\ Abs(e.power[h] - Pumps(p, c) - Elec(p, c, h1)) <= ElecTol(p)
     /\ Abs(e.energy[h] - Pumps(p, c) - Elec(p, c, h1) - GasW(p, c, h1)) <= ElecTol(p) + GasTol(p)
     /\ Abs(e.fuel.gas[h] - GasFlow(p, c, h1)) <= 4 * p.flow + 2
     /\ Abs((e.fuel.el[h] \div 4) - Elec(p, c, h1)) <= ElecTol(p) ]
ReadyN(e) == [
  starts_near_target |-> \A h \in Hs : LET T == e.T[h] tg == Cfg.target[h] IN
     /\ T.i >= tg - U /\ T.i <= tg + U /\ 2 * T.b = Cfg.out0 + tg /\ T.e = (IF T.i >= tg THEN T.i ELSE P(h).nominal * U)
     /\ T.c >= 50 * U /\ T.c <= 52 * U ]
StepN(e) ==
  LET x == e.exact /\ st.exact
      in(h) == [out |-> e.out, gains |-> U * (e.gains[h] + e.irr * P(h).mult), sh |-> e.sh[h], dhwheat |-> e.hw[h], dhw |-> e.dhw[h]]
      netok(h) == NetOk(P(h), st.T[h], e.T[h], in(h), x)
  IN [
  energy_balance |-> \A h \in Hs : \A k \in DOMAIN netok(h) : netok(h)[k],
  demand |-> \A h \in Hs : DemandOk(e.hd[h], P(h), st.T[h], e.tg[h], e.dhw[h], e.out, Cfg.algo, Cfg.band, x) ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "ready5" -> Failing(Ready5(e))
    [] e.op = "step5" -> Failing(Step5(e))
    [] e.op = "readyT" -> Failing(ReadyT(e))
    [] e.op = "stepT" -> Failing(StepT(e))
    [] e.op = "readyC" -> Failing([controls |-> \A h \in Hs : e.ctl[h] = Off])
    [] e.op = "stepC" -> Failing(StepC(e))
    [] e.op = "readyS" -> Failing(SysClauses(e, TRUE))
    [] e.op = "stepS" -> Failing(SysClauses(e, FALSE))
    [] e.op = "readyN" -> Failing(ReadyN(e))
    [] e.op = "setN" -> {}
    [] e.op = "stepN" -> Failing(StepN(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = e
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
