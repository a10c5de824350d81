----------------------------- MODULE MCHeating -----------------------------
(* One household run as a whole for a few steps, with external inputs, and the guarantees of its parts.  The units are
   sixteenths, so that the divisions of a few steps stay exact.                                                         *)
EXTENDS Heating, TLC, Json, Sequences
CONSTANTS Depth, Gen, Wide
U == 16
VARIABLES T, th, tg, c, d, out, eff, last, n, hist
vars == <<T, th, tg, c, d, out, eff, last, n, hist>>
P == [Kb |-> 2, Ki |-> 2, Ke |-> 1, Kc |-> 2, Hob |-> 1, Hbi |-> 1, Hv |-> 0, Hem |-> 1, Hl |-> 0]
Cold == 10 * U
Band == [sh |-> U, hw |-> 5 * U, em |-> 5 * U]
NoV == -999999
Ext(x, base) == IF x = NoV THEN base ELSE x
Divides(p, TT, in) == /\ FlowB(p, TT, in) % p.Kb = 0 /\ FlowI(p, TT, in) % p.Ki = 0 /\ FlowE(p, TT, in) % p.Ke = 0 /\ FlowC(p, TT, in) % p.Kc = 0
Step(p, TT, in) == [b |-> TT.b + FlowB(p, TT, in) \div p.Kb, i |-> TT.i + FlowI(p, TT, in) \div p.Ki,
                    e |-> TT.e + FlowE(p, TT, in) \div p.Ke, c |-> TT.c + FlowC(p, TT, in) \div p.Kc, w |-> TT.w]
Init == /\ T \in {[b |-> 15 * U, i |-> i * U, e |-> e * U, c |-> 50 * U, w |-> Cold] : i \in {19, 20}, e \in {20, 50}}
        /\ th = [hw |-> FALSE, sh |-> FALSE, em |-> FALSE] /\ tg = [sh |-> 20 * U, dhw |-> 50 * U, em |-> 50 * U]
        /\ c = [heater |-> FALSE, water |-> FALSE, space |-> FALSE] /\ d = [dhw |-> 0, sh |-> 0]
        /\ out = [dhw |-> 0, sh |-> 0] /\ eff = out /\ last = <<>> /\ n = 0 /\ hist = <<>>
MaxS == 32 * U
MaxW == 16 * U
\* combi, external cylinder temperature, target of the room, external heat (x: total to split; xs, xw: given apart)
Run(combi, dhw, xc, xt, x, xs, xw, o) ==
  LET sp == IF x = NoV THEN [dhw |-> NoV, sh |-> NoV] ELSE Split(x, c, d)
      ew == Ext(xw, sp.dhw)
      es == Ext(xs, sp.sh)
      T0 == [T EXCEPT !.c = Ext(xc, @)]
      tg1 == [tg EXCEPT !.sh = Ext(xt, @)]
      th1 == [hw |-> Hyst(th.hw, T0.c, tg1.dhw, Band.hw), sh |-> Hyst(th.sh, T0.i, tg1.sh, Band.sh), em |-> Hyst(th.em, T0.e, tg1.em, Band.em)]
      c1 == Controls(combi, xc # NoV, dhw, th1)
      d1 == [dhw |-> WaterDemand(P, T0, dhw, tg1.dhw, Band.hw), sh |-> EmitterDemand(P, T0, tg1.em, Band.em)]
      o1 == Outputs(c1, d1, MaxS, MaxW)
      f1 == [dhw |-> Ext(ew, o1.dhw), sh |-> Ext(es, o1.sh)]
      in == [out |-> o, gains |-> 0, sh |-> f1.sh, dhwheat |-> f1.dhw, dhw |-> dhw]
  IN /\ Assert(Divides(P, T0, in), "a division left the integers")
     /\ T' = Step(P, T0, in) /\ th' = th1 /\ tg' = tg1 /\ c' = c1 /\ d' = d1 /\ out' = o1 /\ eff' = f1
     /\ last' = [T0 |-> T0, in |-> in, wasth |-> th, given |-> [sh |-> es # NoV, dhw |-> ew # NoV], x |-> x, dhw |-> dhw, combi |-> combi, xc |-> xc]
     /\ hist' = IF Gen THEN Append(hist, [combi |-> combi, dhw |-> dhw, xc |-> xc, xt |-> xt, x |-> x, xs |-> xs, xw |-> xw, o |-> o]) ELSE hist
S(X) == {IF x = NoV THEN NoV ELSE x * U : x \in X}
Next == /\ n < Depth /\ n' = n + 1
        /\ \E combi  \in (IF Gen THEN {FALSE} ELSE BOOLEAN), dhw \in {0, 2}, xc \in S({NoV, 45, 55}), xt \in (IF Wide THEN S({NoV, 17, 21}) ELSE S({NoV, 21})),
              x \in S({NoV, 0, 24}), xs \in S({NoV, 6}), xw \in (IF Wide THEN S({NoV, 0, 8}) ELSE S({NoV, 8})), o \in (IF Wide THEN S({0, 15}) ELSE S({15})) :
             /\ (x # NoV => xs = NoV \/ xw = NoV)
             /\ Run(combi, dhw, xc, xt, x, xs, xw, o)
Spec == Init /\ [][Next]_vars
Started == last # <<>>
\* ---- the properties
\* no switch inside the band
Hysteresis == Started =>
  /\ th.sh # last.wasth.sh => IF th.sh THEN last.T0.i <= tg.sh - Band.sh ELSE last.T0.i >= tg.sh + Band.sh
  /\ th.hw # last.wasth.hw => IF th.hw THEN last.T0.c <= tg.dhw - Band.hw ELSE last.T0.c >= tg.dhw + Band.hw
  /\ th.em # last.wasth.em => IF th.em THEN last.T0.e <= tg.em - Band.em ELSE last.T0.e >= tg.em + Band.em
  /\ (last.T0.i <= tg.sh - Band.sh => th.sh) /\ (last.T0.i >= tg.sh + Band.sh => ~th.sh)
Capacity == /\ out.dhw \in 0..MaxW /\ out.sh \in 0..MaxS /\ out.dhw + out.sh <= Most(MaxS, MaxW)
            /\ (out.dhw > 0 => c.water /\ c.heater /\ out.dhw <= d.dhw) /\ (out.sh > 0 => c.space /\ c.heater /\ out.sh <= d.sh)
\* space heating gets less than it asks for only when all is used
NothingLeft == (Started /\ c.space /\ d.sh > 0 /\ out.sh < d.sh) => (out.dhw + out.sh >= MaxS)
WaterFirst == (Started /\ c.water /\ d.dhw > 0 /\ out.dhw < d.dhw) => out.dhw = MaxW
ExternalWins == Started => (~last.given.sh => eff.sh = out.sh) /\ (~last.given.dhw => eff.dhw = out.dhw)
\* what the nodes gain is what comes from outside the network
Balance == Started =>
  LET in == last.in Z == last.T0 IN
  P.Kb * (T.b - Z.b) + P.Ki * (T.i - Z.i) + P.Ke * (T.e - Z.e) + P.Kc * (T.c - Z.c)
    = P.Hob * (in.out - Z.b) + P.Hv * (in.out - Z.i) + in.gains + in.sh + in.dhwheat + in.dhw * (Z.w - Z.c)
\* a demand that is met brings the emitter and the cylinder exactly to the end of their bands
DemandReaches == Started =>
  /\ eff.sh = d.sh => T.e = tg.em + Band.em
  /\ eff.dhw = d.dhw => T.c = tg.dhw + Band.hw
Equilibrium == (Started /\ last.T0.b = last.in.out /\ last.T0.i = last.in.out /\ last.T0.e = last.in.out /\ eff.sh = 0 /\ last.in.gains = 0)
                 => (T.b = last.T0.b /\ T.i = last.T0.i /\ T.e = last.T0.e)
GenPrint == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson([i |-> T.w, steps |-> hist])>>)
=============================================================================
