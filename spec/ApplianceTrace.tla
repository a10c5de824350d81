--------------------------- MODULE ApplianceTrace ---------------------------
(* Judges recorded runs of the appliance simulators with the operators of Appliance.
   cfg: kind, exact (every draw was scripted), nh, apps (records as in Appliance, with mean, std in W, mw in l/min),
        own[h][i], want (ownership that was asked for, or <<>>), profs[h][i] (samples, <<>>: constant), sub[h], refresh,
        prob[i] in 128ths (prob), sp[i] in eighths and np slots (occ), k (what the scripted integers were drawn with)
   e.u: the uniform every draw of the step got, in 128ths; 127 stands for the largest number below 1.
   e.v: litres every Poisson draw of the step got.                                                                   *)
EXTENDS TraceLib, Appliance
VARIABLES t, l, st, bad
Cfg == Traces[t].cfg
Hs == 1..Cfg.nh
Is == 1..Len(Cfg.apps)
\* the activity profiles of the made-up data: certain in one slot of nine
WeekEnd(m) == (((m - Cfg.refresh) \div 1440) + 3) % 7 >= 5
Slot(m) == ((m - Cfg.refresh) % 1440) \div 10
Pdf(sub, ai, m, occ) == (Slot(m) + 2 * sub + 3 * ai + (IF WeekEnd(m) THEN 5 ELSE 0) + occ) % 9
OccProb(h, i, m, occ) == 2 * Cfg.sp[i] * Pdf(Cfg.sub[h], Cfg.ai[i], m, occ)
IsProf(h, i) == Cfg.profs[h][i] # <<>>
DurOf(h, i, v) == LET a == Cfg.apps[i] IN
  IF IsProf(h, i) THEN Len(Cfg.profs[h][i]) * Q
  ELSE IF a.water THEN (v * Q) \div a.mw ELSE a.dur
Ds(h, v) == [i \in Is |-> DurOf(h, i, v)]
Lens(h) == [i \in Is |-> Len(Cfg.profs[h][i])]
Mod(a, b) == a % b
\* the starting state: everything off, delays anywhere in a cycle, recorded profiles of what is always on anywhere inside
Blank(h) == [i \in Is |->
  [left |-> IF Cfg.apps[i].always /\ IsProf(h, i) /\ Cfg.kind # "occ" /\ Cfg.own[h][i]
            THEN Q * (1 + Mod(Cfg.k, Len(Cfg.profs[h][i]) - 1)) ELSE 0,
   ref |-> IF Cfg.apps[i].delay > 0 THEN Mod(Cfg.k, Cfg.apps[i].delay) ELSE 0,
   used |-> FALSE]]
Assoc(acts) == [a \in {acts[j][1] : j \in 1..Len(acts)} |-> LET j == CHOOSE j \in 1..Len(acts) : acts[j][1] = a IN acts[j][2]]
OfHh(acts, h) == [j \in 1..Len(acts) |-> <<acts[j][1], acts[j][2][h]>>]
OneOcc(S, h, m, u, v, occ) ==
  OccStep(Cfg.apps, S, Cfg.own[h], [i \in Is |-> u < OccProb(h, i, m, occ)], Ds(h, v), occ)
RECURSIVE OccRun(_, _, _, _, _, _, _)
OccRun(S, h, m, to, u, v, occ) == IF m = to THEN S ELSE OccRun(OneOcc(S, h, m, u, v, occ), h, m + 1, to, u, v, occ)
ReadyState(e) == [h \in Hs |->
  CASE Cfg.kind = "occ" -> OccRun(Blank(h), h, e.m - e.n, e.m, e.u, e.v, e.occ[h])
    [] Cfg.kind = "act" -> LET now == Assoc(OfHh(e.acts, h)) B == Blank(h) IN
         [i \in Is |-> IF Cfg.apps[i].always THEN [B[i] EXCEPT !.used = TRUE]
                       ELSE IF Cfg.apps[i].act \in DOMAIN now /\ now[Cfg.apps[i].act] > 0
                            THEN ActStart(B[i], Len(Cfg.profs[h][i])) ELSE B[i]]
    [] Cfg.kind = "prob" -> [i \in Is |-> WithUse(Blank(h)[i])]]
StepState(e) == [h \in Hs |->
  CASE Cfg.kind = "occ" -> OneOcc(st.S[h], h, e.m, e.u, e.v, e.occ[h])
    [] Cfg.kind = "act" -> ActStep(Cfg.apps, st.S[h], Lens(h), Assoc(OfHh(st.acts, h)), Assoc(OfHh(e.acts, h)))
    [] Cfg.kind = "prob" -> ProbStep(Cfg.apps, st.S[h], Cfg.own[h], [i \in Is |-> e.u < Cfg.prob[i]], Ds(h, e.v),
                                     Assoc(OfHh(st.acts, h)), OfHh(e.acts, h))]
Visible(T, h, i) == T[h][i].used /\ Cfg.own[h][i]
\* ---- exact runs
Agrees(e, T, h, i) == e.usage[h][i] = Visible(T, h, i)
Was(h, i) == st.S[h][i].used /\ Cfg.own[h][i]
UseClauses(e, T, first) == [
  owned_only |-> \A h \in Hs, i \in Is : e.usage[h][i] => Cfg.own[h][i],
  \* the uses the specification has and the code does not
  starts_when_drawn |-> \A h \in Hs, i \in Is : (Visible(T, h, i) /\ ~e.usage[h][i]) => (~first /\ Was(h, i)),
  runs_whole_cycle |-> \A h \in Hs, i \in Is : (Visible(T, h, i) /\ ~e.usage[h][i]) => (first \/ ~Was(h, i)),
  \* the uses the code has and the specification does not
  starts_only_when_allowed |-> \A h \in Hs, i \in Is : (e.usage[h][i] /\ ~Visible(T, h, i)) => (~first /\ Was(h, i)),
  stops_in_time |-> \A h \in Hs, i \in Is : (e.usage[h][i] /\ ~Visible(T, h, i)) => (first \/ ~Was(h, i)) ]
WaterOf(T, h, i) == LET s == T[h][i] a == Cfg.apps[i] IN
  IF ~Visible(T, h, i) THEN 0
  ELSE IF Cfg.kind = "occ" THEN a.mw * (IF s.left >= Q THEN Q ELSE s.left) ELSE a.mw * Q
PowClauses(e, T) == [
  power_of_each_appliance |-> \A h \in Hs, i \in Is : Agrees(e, T, h, i) =>
      e.power[h][i] = Power(Cfg.apps[i], T[h][i], Cfg.own[h][i], Cfg.profs[h][i]),
  water_of_each_appliance |-> \A h \in Hs, i \in Is : Agrees(e, T, h, i) => e.water[h][i] = WaterOf(T, h, i) ]
SumClauses(e) == [
  not_owned_consumes_nothing |-> \A h \in Hs, i \in Is : ~Cfg.own[h][i] => (e.power[h][i] = 0 /\ e.water[h][i] = 0),
  standby_or_mean |-> \A h \in Hs, i \in Is : Cfg.own[h][i] =>
      LET a == Cfg.apps[i] IN
      IF ~e.usage[h][i] THEN e.power[h][i] = a.std
      ELSE IF ~IsProf(h, i) THEN e.power[h][i] = a.mean ELSE e.power[h][i] \in Range(Cfg.profs[h][i]),
  household_is_the_sum |-> \A h \in Hs : e.demand[h] = SumSeq(e.power[h]) /\ e.energy[h] = SumSeq(e.power[h]) /\ e.gains[h] = SumSeq(e.power[h]),
  hot_water_from_draws |-> \A h \in Hs : e.dhw[h] = 70 * SumSeq(e.water[h]) ]
OwnClauses == [
  ownership_as_requested |-> Cfg.want # <<>> => Cfg.own = Cfg.want,
  compatible_appliances |-> Cfg.names = Cfg.wantnames ]
\* ---- runs with real draws: what holds for every draw.  st.H[h][i] = [run, gap]: steps of this use, steps since the last
MinRun(h, i) == IF Cfg.apps[i].water THEN 1 ELSE CeilSteps(DurOf(h, i, 0))
Free0(e) == [h \in Hs |-> [i \in Is |-> [run |-> IF e.usage[h][i] THEN 1000000 ELSE 0, gap |-> IF e.usage[h][i] THEN 0 ELSE 1000000]]]
Free1(e) == [h \in Hs |-> [i \in Is |-> LET x == st.H[h][i] IN
   IF e.usage[h][i] THEN [run |-> IF x.run = 0 THEN 1 ELSE x.run + 1, gap |-> 0]
   ELSE [run |-> 0, gap |-> IF x.run > 0 THEN 1 ELSE x.gap + 1]]]
ActNow(e, h, i) == LET now == Assoc(e.acts) a == Cfg.apps[i].act IN a \in DOMAIN now /\ now[a][h] > 0
ActStopped(e, h, name) == LET now == Assoc(e.acts) was == Assoc(st.acts) IN
   name \in DOMAIN now /\ now[name][h] = 0 /\ was[name][h] > 0
Begins(e, h, i) == e.usage[h][i] /\ st.H[h][i].run = 0
Ends(e, h, i) == ~e.usage[h][i] /\ st.H[h][i].run > 0
StopCause(e, h, i) == Cfg.apps[i].inoff /\
   CASE Cfg.kind = "occ" -> e.occ[h] = 0
     [] OTHER -> ActStopped(e, h, Cfg.apps[i].act)
TypeEnded(e, h, ty) == \E j \in Is : Cfg.apps[j].type = ty /\ (Ends(e, h, j) \/ (st.H[h][j].run > 0 /\ st.H[h][j].run >= MinRun(h, j)))
StartCause(e, h, i) == LET a == Cfg.apps[i] IN
   CASE Cfg.kind = "occ" -> (Cfg.pos[i] /\ ~(a.inoff /\ e.occ[h] = 0))
     [] Cfg.kind = "act" -> ActNow(e, h, i)
     [] OTHER -> (ActNow(e, h, i) /\ ~Dictated(a))
                  \/ (a.pact # "nan" /\ ActStopped(e, h, a.pact)) \/ (a.ptype # "nan" /\ TypeEnded(e, h, a.ptype))
FreeClauses(e) == [
  owned_only |-> \A h \in Hs, i \in Is : e.usage[h][i] => Cfg.own[h][i],
  starts_only_when_allowed |-> \A h \in Hs, i \in Is : Begins(e, h, i) =>
      (StartCause(e, h, i) /\ (Cfg.kind = "act" \/ st.H[h][i].gap >= Cfg.apps[i].delay)),
  runs_whole_cycle |-> \A h \in Hs, i \in Is : (Ends(e, h, i) /\ Cfg.kind # "act") =>
      (StopCause(e, h, i) \/ st.H[h][i].run >= MinRun(h, i)),
  stops_in_time |-> \A h \in Hs, i \in Is : e.usage[h][i] => (
      /\ (Cfg.kind = "act" \/ ~StopCause(e, h, i) \/ (Cfg.kind = "prob" /\ (Begins(e, h, i) \/ Dictated(Cfg.apps[i]))))
      /\ (Cfg.kind = "act" /\ ~Cfg.apps[i].always /\ Cfg.apps[i].inoff => ActNow(e, h, i))
      /\ (Cfg.kind # "act" /\ Cfg.apps[i].delay > 0 /\ ~Cfg.apps[i].water /\ st.H[h][i].run < 1000000 => st.H[h][i].run < MinRun(h, i))) ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "ready" -> Failing(OwnClauses) \cup Failing(SumClauses(e)) \cup
         (IF Cfg.exact THEN LET T == ReadyState(e) IN Failing(UseClauses(e, T, TRUE)) \cup Failing(PowClauses(e, T)) ELSE {})
    [] e.op = "step" -> Failing(SumClauses(e)) \cup
         (IF Cfg.exact THEN LET T == StepState(e) IN Failing(UseClauses(e, T, FALSE)) \cup Failing(PowClauses(e, T)) ELSE Failing(FreeClauses(e)))
    [] OTHER -> {"unknown_event"}
NextSt(e) == CASE e.op = "ready" -> [S |-> IF Cfg.exact THEN ReadyState(e) ELSE <<>>, H |-> IF Cfg.exact THEN <<>> ELSE Free0(e), acts |-> e.acts]
               [] e.op = "step" -> [S |-> IF Cfg.exact THEN StepState(e) ELSE <<>>, H |-> IF Cfg.exact THEN <<>> ELSE Free1(e), acts |-> e.acts]
               [] OTHER -> st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
