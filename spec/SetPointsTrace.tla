-------------------------- MODULE SetPointsTrace --------------------------
(* Recorded set points judged against SetPoints. A trace is one simulator; its households have patterns of their own (cfg.kind: "follow",
   "switch", "fixed", one per household; cfg.P one pattern per household). *)
EXTENDS SetPoints, TraceLib
VARIABLES t, l, bad, T, o0, a0
Cfg(u) == Traces[u].cfg
N(u) == Len(Cfg(u).kind)
Pat(u, h) == Cfg(u).P[h]
Step(e) ==
  LET H == 1..N(t)
      of(k) == { h \in H : Cfg(t).kind[h] = k }
  IN [ shape |-> Len(e.T) = N(t),
       follows_people |-> \A h \in of("follow") : e.T[h] \in Follow(Pat(t, h), T[h], o0[h], a0[h], e.o[h], e.a[h], Cfg(t).ask),
       warm_iff_someone_is_in |-> \A h \in of("switch") : e.T[h] = Switch(Pat(t, h), e.o[h]),
       constant_kinds |-> \A h \in of("fixed") : e.T[h] \in { High(Pat(t, h)), Pat(t, h).mean, Pat(t, h).mean - Pat(t, h).dev } ]
\* the whole series of one household
Days(e) == [ same_times_every_day |-> Explained(Pat(t, e.h), e.S, e.M) ]
Start(e) == [ start |-> \A h \in 1..N(t) : e.T[h] = Pat(t, h).mean ]
Clauses(e) ==
  CASE e.op = "raised" -> {"raised"}
    [] e.op = "start" -> Failing(Start(e))
    [] e.op = "step" -> Failing(Step(e))
    [] e.op = "days" -> Failing(Days(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ T = <<>> /\ o0 = <<>> /\ a0 = <<>>
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ IF e.op \in {"start", "step"} THEN T' = e.T /\ o0' = e.o /\ a0' = e.a ELSE UNCHANGED <<T, o0, a0>>
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad, T, o0, a0>>
=============================================================================
