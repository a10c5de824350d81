---------------------------- MODULE ClimateTrace ----------------------------
(* Judges recorded uses of the climate loaders and simulators with the operators of Climate.  Times in half minutes UTC. *)
EXTENDS TraceLib, Climate
VARIABLES t, l, st, bad
Cfg == Traces[t].cfg
NR == Len(Cfg.rt)
From(s, i) == SubSeq(s, i, Len(s))
WClauses(e) == LET w == WindowFrom(Cfg.rt, e.T) IN
  IF e.refused THEN [refused_only_when_too_late |-> w = 0]
  ELSE [ refused_when_too_late |-> w # 0,
         starts_in_force |-> w = 0 \/ (e.times # <<>> /\ e.times[1] = Cfg.rt[w]),
         every_record_in_order |-> w = 0 \/ \E i \in 1..NR : e.times = From(Cfg.rt, i),
         all_quantities_alike |-> \A i \in 1..NR : e.times = From(Cfg.rt, i) =>
             (e.temp = From(Cfg.temp, i) /\ e.irr = From(Cfg.irr, i) /\ (e.has => e.third = [j \in 1..(NR - i + 1) |-> Cfg.temp[i + j - 1] + 1])) ]
\* a simulator can be started at a record or after one, up to the last record
Startable(T) == T >= Cfg.rt[1] /\ T <= Cfg.rt[NR]
RClauses(e) ==
  IF e.refused THEN [starts_where_it_can |-> ~Startable(Cfg.start) /\ e.k = 0]
  ELSE [ refused_where_it_cannot |-> Startable(Cfg.start),
         clock |-> e.now = Cfg.start + e.k * Cfg.step,
         record_in_force |-> Startable(Cfg.start) =>
            LET i == InForce(Cfg.rt, Cfg.start + e.k * Cfg.step) IN i > 0 /\ e.temp = Cfg.temp[i] /\ e.irr = Cfg.irr[i] ]
IClauses(e) == LET T == Cfg.start + e.k * Cfg.step IN
  IF e.refused THEN [starts_where_it_can |-> ~Startable(T)]
  ELSE [ refused_where_it_cannot |-> Startable(Cfg.start) /\ Startable(T),
         clock |-> Startable(T) => e.now = T,
         interpolates |-> Startable(T) => (InterpOk(Cfg.rt, Cfg.temp, T, e.temp) /\ InterpOk(Cfg.rt, Cfg.irr, T, e.irr)) ]
\* the day's values at their own moments, whenever the run was started
GClauses(e) == [
  clock |-> e.m = e.want,
  irradiance_of_the_moment |-> Cfg.ref # <<>> => (e.irr = Cfg.ref[e.want + 1] /\ e.alone = Cfg.ref[e.want + 1]),
  temperature_of_the_moment |-> Cfg.tref # <<>> => e.temp = Cfg.tref[e.want + 1],
  sane |-> e.sane[1] \in 0..14500 /\ e.sane[2] \in 0..14500 /\ e.sane[3] \in -1000..1000 ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "window" -> Failing(WClauses(e))
    [] e.op = "real" -> Failing(RClauses(e))
    [] e.op = "interp" -> Failing(IClauses(e))
    [] e.op = "generated" -> Failing(GClauses(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = st
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
