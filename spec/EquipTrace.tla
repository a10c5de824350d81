----------------------------- MODULE EquipTrace -----------------------------
(* Recorded assignments of ownerships and targets, and equipped households, judged against Equip. Each event stands alone. *)
EXTENDS Equip, TraceLib
VARIABLES t, l, bad
Closests(e) == [ closest_parent |-> e.got = Closest(e.ty, Range(e.K)) ]
Assign(e) == [ assigned |-> e.got = Assigned(e.Ty, e.D, e.def),
               given_unchanged |-> e.same ]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Split(e) == [ refused |-> e.refused = ~Possible(e.p, e.n, e.One),
              number_kept |-> (~e.refused /\ Possible(e.p, e.n, e.One)) => Strip(e.got) = Strip(Floor(e.p, e.n, e.One)) ]
Merge(e) ==
  LET M == Merged(e.A, e.B) IN
  [ merged |-> e.got.number = M.number /\ DOMAIN e.got.cols = DOMAIN M.cols /\ \A c \in DOMAIN M.cols : e.got.cols[c] = M.cols[c],
    given_unchanged |-> e.same ]
\* the probabilities of each subgroup, then who owns what
ProbsOf(e) == [s \in 1..Len(e.dicts) |-> IF e.algo = "subgroup" THEN Assigned(e.Ty, e.dicts[s], e.def) ELSE e.def]
Want(e) ==
  LET hh == HouseholdsOf(e.counts) IN
  CASE e.algo \in {"subgroup", "basic"} -> Owns(e.u, ProbsOf(e), hh)
    [] e.algo = "all" -> [i \in 1..Len(hh) |-> [j \in 1..Len(e.Ty) |-> TRUE]]
    [] e.algo = "set_defined" -> [i \in 1..Len(hh) |-> [j \in 1..Len(e.Ty) |-> e.names[j] \in Range(e.sets[hh[i]])]]
    [] OTHER -> <<>>
\* the number of times an appliance could have been started in a year, times 16 (0: never): target over probability
Starts(e, s, j) ==
  LET T == Assigned(e.Ty, e.targets[s], e.tdef)
      before == { i \in 1..Len(e.Ty) : e.tynames[i] = e.ptype[j] }
      A == { i \in 1..Len(e.acts) : e.acts[i] = e.pact[j] }
      B == { i \in 1..Len(e.acts) : e.acts[i] = e.act[j] }
      usual(i) == e.steps * e.share[s][i] - 16 * e.dur[j] * T[j]
  IN IF T[j] = 0 THEN 0
     ELSE IF before # {} THEN 16 * Sum([i \in 1..Len(e.Ty) |-> IF i \in before THEN T[i] ELSE 0])
     ELSE IF A # {} THEN LET i == CHOOSE i \in A : TRUE IN (1461 * e.perday[s][i] * (IF e.nres[s] = 0 THEN 23 ELSE 10 * e.nres[s]) * 4) \div 10
     ELSE IF B # {} THEN LET i == CHOOSE i \in B : TRUE IN Max2(16, usual(i))
     ELSE 0
Equipped(e) ==
  [ refused |-> e.refused = e.wrong,
    owns |-> ~e.refused => e.own = Want(e),
    given_unchanged |-> e.same ]
Switched(e) ==
  [ target_is_met |-> LET hh == HouseholdsOf(e.counts) IN
      /\ Len(e.starts) = Len(hh)
      /\ \A i \in 1..Len(hh) : Len(e.starts[i]) = Len(e.Ty) /\ \A j \in 1..Len(e.Ty) : (e.starts[i][j] - Starts(e, hh[i], j)) \in -1..1 ]
Clauses(e) ==
  CASE e.op = "raised" -> {"raised"}
    [] e.op = "closest" -> Failing(Closests(e))
    [] e.op = "assign" -> Failing(Assign(e))
    [] e.op = "split" -> Failing(Split(e))
    [] e.op = "merge" -> Failing(Merge(e))
    [] e.op = "equip" -> Failing(Equipped(e))
    [] e.op = "switch" -> Failing(Switched(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t].ev[l + 1])
        /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
