------------------------------ MODULE Heating ------------------------------
(* The heating of one household: thermostats, controls, demand, heat outputs, thermal network.
   Temperatures, powers and products of both are integers in units of 1/U (K or W); heat transfer coefficients are whole
   W/K; a capacitance is given by K = C / step size, a whole number of W/K.
   Parameters p: Kb, Ki, Ke, Kc, Hob, Hbi, Hv, Hem, Hl; a network state T: b (building), i (interior), e (emitter), c (cylinder),
   w (cold water).                                                                                                    *)
EXTENDS Integers
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == Least(Most(x, lo), hi)

(* Thermostats: hysteresis around the set point.                                                                      *)
Hyst(on, temp, target, band) == IF on THEN temp < target + band ELSE temp <= target - band

(* Controls: hot water follows its thermostat, or the draws where no cylinder of the heating system has to be kept hot. *)
Controls(combi, ext, dhw, th) ==
  LET water == IF combi \/ ext THEN dhw > 0 ELSE th.hw
      space == th.sh /\ th.em
  IN [heater |-> water \/ space, water |-> water, space |-> space]

(* Demand: the heat that brings the cylinder, and the emitter or the room, to the upper end of its band in one step.    *)
WaterDemand(p, T, dhw, target, band) == p.Kc * (target + band - T.c) + dhw * (T.c - T.w) + p.Hl * (T.c - T.i)
EmitterDemand(p, T, target, band) == p.Ke * (target + band - T.e) + p.Hem * (T.e - T.i)
\* Hs: what the room loses through the walls, per K of difference to the outside (the two layers in series)
RoomDemand(p, T, target, band, out, Hs) ==
  p.Ki * (target + band - T.i) - p.Hem * (T.e - T.i) + (p.Hv + Hs) * (T.i - out)

(* Heat: hot water first, space heating gets at most what is left.                                                     *)
Outputs(c, d, maxS, maxW) ==
  LET w == Clip(d.dhw, 0, maxW) IN
  [dhw |-> IF c.heater /\ c.water THEN w ELSE 0,
   sh |-> IF c.heater /\ c.space THEN Clip(d.sh, 0, IF c.water THEN Most(maxS - w, 0) ELSE maxS) ELSE 0]
\* a given amount of external heat: hot water first, then space heating, the rest into the cylinder
Split(x, c, d) ==
  LET w == Clip(d.dhw, 0, x)
      water == IF c.heater /\ c.water THEN w ELSE 0
      space == IF c.heater /\ c.space THEN Clip(d.sh, 0, IF c.water THEN x - w ELSE x) ELSE 0
  IN [dhw |-> x - space, sh |-> space]

(* Network: heat flows into the four nodes in the state before the step; in: out (outside), gains, sh, dhwheat, dhw.    *)
FlowB(p, T, in) == p.Hob * (in.out - T.b) + p.Hbi * (T.i - T.b)
FlowI(p, T, in) == p.Hbi * (T.b - T.i) + p.Hv * (in.out - T.i) + p.Hem * (T.e - T.i) + p.Hl * (T.c - T.i) + in.gains
FlowE(p, T, in) == p.Hem * (T.i - T.e) + in.sh
FlowC(p, T, in) == p.Hl * (T.i - T.c) + in.dhw * (T.w - T.c) + in.dhwheat
=============================================================================
