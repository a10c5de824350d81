--------------------------- MODULE OccupancyTrace ---------------------------
(* Judges what the activity simulators report about the people in the households.
   individuals: the persons' activities per type (sub) and the reported counts; sparse, crest: the label each household
   is in and the reported counts.                                                                                   *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
O == INSTANCE Occupancy WITH Kinds <- {}, Counts <- {}, MaxSubs <- 0, Acts <- {}, layout <- 0, sub <- 0
Cfg == Traces[t].cfg
HH == 1..Len(Cfg.res)
NA == Len(Cfg.acts)
ActNo(a) == CHOOSE i \in 1..NA : Cfg.acts[i] = a
Nums(s) == Len(s) = Len(Cfg.res)
Count(s, a) == Cardinality({i \in DOMAIN s : s[i] = a})
Bounds(e) == \A h \in HH : 0 <= e.active[h] /\ e.active[h] <= e.occ[h] /\ e.occ[h] <= Cfg.res[h]

\* e.n[a][h], e.dict (the same from the dictionary), e.list (the same asked as a list), e.sub: <<type, activities>>
SubOf(e, ty) == e.sub[CHOOSE i \in DOMAIN e.sub : e.sub[i].ty = ty].x
Uniform(e, ty) == Cardinality(Range(SubOf(e, ty))) = 1
Shapes(e) == Len(e.n) = NA /\ (\A a \in 1..NA : Nums(e.n[a])) /\ Nums(e.occ) /\ Nums(e.active)
IndClauses(e) ==
  [ one_value_per_household |-> Shapes(e),
    everybody_simulated |-> \A ty \in UNION {Range(Cfg.types[h]) : h \in HH} :
        (\E i \in DOMAIN e.sub : e.sub[i].ty = ty)
        /\ Len(SubOf(e, ty)) = SumSeq([h \in HH |-> Count(Cfg.types[h], ty)]),
    nobody_lost |-> Shapes(e) => \A h \in HH : SumSeq([a \in 1..NA |-> e.n[a][h]]) = Cfg.res[h],
    everybody_once |-> Shapes(e) => \A a \in 1..NA : SumSeq(e.n[a]) = SumSeq([i \in DOMAIN e.sub |-> Count(e.sub[i].x, Cfg.acts[a])]),
    own_household |-> Shapes(e) => \A h \in HH : \A a \in 1..NA :
        LET ts == Range(Cfg.types[h])
            sure == {ty \in ts : Uniform(e, ty) /\ SubOf(e, ty)[1] = Cfg.acts[a]}
            able == {ty \in ts : \E i \in DOMAIN SubOf(e, ty) : SubOf(e, ty)[i] = Cfg.acts[a]}
        IN /\ SumSeq([k \in DOMAIN Cfg.types[h] |-> IF Cfg.types[h][k] \in sure THEN 1 ELSE 0]) <= e.n[a][h]
           /\ e.n[a][h] <= SumSeq([k \in DOMAIN Cfg.types[h] |-> IF Cfg.types[h][k] \in able THEN 1 ELSE 0]),
    seats_fixed |-> (Shapes(e) /\ e.still /\ Len(st) > 0) => st = e.n,
    occupancy |-> Shapes(e) => \A h \in HH : e.occ[h] = Cfg.res[h] - e.n[ActNo("away")][h],
    active_occupancy |-> Shapes(e) => \A h \in HH : e.active[h] = e.occ[h] - e.n[ActNo("sleeping")][h],
    bounds |-> Shapes(e) => Bounds(e),
    same_in_every_form |-> e.dict = e.n /\ e.list = e.n /\ e.perf = e.n /\ e.dactive = e.active ]
DesignClauses(e) ==
  [ counts_as_specified |-> e.n = e.wn, occupancy_as_specified |-> e.occ = e.wocc /\ e.active = e.wactive ]
\* labels that count activities in base 7: e.x[h] is the label, Cfg.acts the activities in the order of the digits
SparseClauses(e) ==
  LET d(h, a) == O!Digit(e.x[h], 7, ActNo(a) - 1)
      home(h) == Cfg.res[h] - d(h, "HWH") - d(h, "HOH")
      act(h) == O!Min2(home(h), d(h, "active"))
  IN [ one_value_per_household |-> Shapes(e) /\ Nums(e.x) /\ Nums(e.gains),
       counts |-> (Shapes(e) /\ Nums(e.x)) => \A a \in 1..NA : \A h \in HH : e.n[a][h] = O!Digit(e.x[h], 7, a - 1),
       occupancy |-> (Shapes(e) /\ Nums(e.x)) => \A h \in HH : e.occ[h] = home(h),
       active_occupancy |-> (Shapes(e) /\ Nums(e.x)) => \A h \in HH : e.active[h] = act(h),
       bounds |-> Shapes(e) => Bounds(e),
       same_in_every_form |-> e.list = e.n,
       gains |-> (Nums(e.gains) /\ Shapes(e)) => \A h \in HH : e.gains[h] = O!Gains(e.occ[h], e.active[h]) ]
CrestClauses(e) ==
  LET home(h) == O!Digit(e.x[h], 10, 1)
      act(h) == O!Min2(home(h), O!Digit(e.x[h], 10, 0))
      ok == Nums(e.x) /\ Nums(e.occ) /\ Nums(e.active) /\ Nums(e.gains)
  IN [ one_value_per_household |-> ok,
       occupancy |-> ok => \A h \in HH : e.occ[h] = home(h),
       active_occupancy |-> ok => \A h \in HH : e.active[h] = act(h),
       bounds |-> ok => Bounds(e),
       gains |-> ok => \A h \in HH : e.gains[h] = O!Gains(e.occ[h], e.active[h]) ]
Clauses(e) ==
  CASE Raised(e)       -> {"raised"}
    [] e.op = "ind"    -> Failing(IndClauses(e))
    [] e.op = "design" -> Failing(DesignClauses(e))
    [] e.op = "sparse" -> Failing(SparseClauses(e))
    [] e.op = "crest"  -> Failing(CrestClauses(e))
    [] OTHER           -> {"unknown_event"}
NextSt(e) == IF e.op = "ind" THEN e.n ELSE st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
