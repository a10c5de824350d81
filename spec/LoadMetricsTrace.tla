-------------------------- MODULE LoadMetricsTrace --------------------------
(* Judges the load metrics of recorded profiles.  cfg.P: the profiles in units of 1 / cfg.u Watts (integers).
   Ratios are recorded in parts of SC.                                                                         *)
EXTENDS TraceLib
VARIABLES t, l, bad
M == INSTANCE LoadMetrics WITH Sets <- {}, P <- <<>>, i <- 0, energy <- <<>>, above <- <<>>, tops <- <<>>, top <- 0, changes <- <<>>
Cfg == Traces[t].cfg
P == Cfg.P
N == Len(P)
T == M!T(P)
SC == 10000
Share(p, n, m) == LET x == p * m - n * SC IN x <= m /\ -x <= m
Energy(e) == [ energy |-> Len(e.out) = N /\ \A n \in 1..N : e.out[n] = M!Energy(P, n) * e.secs ]
Curve(e) ==
  LET asked == IF e.given THEN e.loads ELSE <<>>
  IN [ loads_sorted |-> /\ \A k \in 1..(Len(e.x) - 1) : e.x[k] <= e.x[k + 1]
                        /\ IF e.given THEN Len(e.x) = Len(asked) /\ \A v \in Range(e.x) \cup Range(asked) :
                                              Cardinality({k \in 1..Len(e.x) : e.x[k] = v}) = Cardinality({k \in 1..Len(e.x) : asked[k] = v})
                           ELSE Range(e.x) = M!Loads(P) /\ Len(e.x) = Cardinality(M!Loads(P)),
       durations |-> Len(e.d) = N /\ \A n \in 1..N : Len(e.d[n]) = Len(e.x) /\ \A k \in 1..Len(e.x) : e.d[n][k] = M!Duration(P, n, e.x[k]),
       curve_holds_energy |-> (~e.given /\ \A v \in M!Loads(P) : v >= 0) => \A n \in 1..N :
            M!Energy(P, n) = SumSeq([k \in 1..Len(e.x) |-> (e.x[k] - (IF k = 1 THEN 0 ELSE e.x[k - 1])) * e.d[n][k]]) ]
Factors(e) ==
  [ diversity |-> M!TopSum(P) > 0 => Share(e.div, M!SumOfTops(P), M!TopSum(P)),
    coincidence |-> (M!TopSum(P) > 0 /\ M!SumOfTops(P) > 0) => Share(e.coin, M!TopSum(P), M!SumOfTops(P)) /\ e.sim = e.coin,
    coincident_demand |-> Share(e.tcd, M!TopSum(P), N * Cfg.u) ]
\* edges in units of 1/e.den (of the largest change when normalized); e.exact: edges and changes compare exactly
Hist(e) ==
  LET L == M!Largest(P)
      scale == IF e.norm /\ L > 0 THEN L ELSE 1
      all == N * (T - 1)
      lo(k) == M!Below(P, e.edges[k] * scale, e.den)
      hi(k) == M!UpTo(P, e.edges[k] * scale, e.den)
      n == Len(e.edges)
      fits == e.edges[n] * scale > L * e.den \/ (e.norm /\ e.edges[n] * scale = L * e.den)
      least == \A s \in M!Steps(P) : M!Change(P, s) * e.den >= e.edges[1] * scale
      upto(x, k) == \E c \in (IF e.exact THEN {lo(k)} ELSE lo(k)..hi(k)) : Share(x, c, all)
  IN [ refused_iff_outside |-> e.given => (e.refused = ~(fits /\ least)),
       every_change_counted |-> ~e.refused => Len(e.cdf) = n - 1 /\ Share(e.cdf[n - 1], 1, 1),
       counted_in_its_bin |-> ~e.refused => \A k \in 1..(n - 2) : upto(e.cdf[k], k + 1) ]
\* all changes are 0 and no edge was given: the bins lie around 0
Flat(e) == [ every_change_counted |-> Len(e.cdf) = e.bins /\ Share(e.cdf[e.bins], 1, 1) /\ \A k \in 1..(e.bins - 1) : e.cdf[k] <= e.cdf[k + 1] ]
Sq(p, q) == SumSeq([k \in 1..Len(p) |-> (p[k] - q[k]) * (p[k] - q[k])])
Compare(e) ==
  [ similarity |-> Len(e.sim) = N /\ \A n \in 1..N : Len(e.sim[n]) = Len(Cfg.Q) /\ \A m \in 1..Len(Cfg.Q) : e.sim[n][m] = Sq(P[n], Cfg.Q[m]),
    variety |-> Len(e.var) = (N * (N - 1)) \div 2 /\
                \A n \in 1..(N - 1), m \in 2..N : n < m =>
                   LET k == (n - 1) * N - (n * (n - 1)) \div 2 + (m - n) IN e.var[k] = Sq(P[n], P[m]),
    rmse |-> e.rmse = -1 \/ e.rmse = SumSeq([n \in 1..N |-> Sq(P[n], Cfg.Q[n])]) ]
Clauses(e) ==
  (CASE Raised(e) -> {"raised"}
     [] e.op = "energy" -> Failing(Energy(e))
     [] e.op = "curve" -> Failing(Curve(e))
     [] e.op = "factors" -> Failing(Factors(e))
     [] e.op = "hist" -> Failing(Hist(e))
     [] e.op = "flat" -> Failing(Flat(e))
     [] e.op = "compare" -> Failing(Compare(e))
     [] OTHER -> {"unknown_event"})
  \cup (IF ~Raised(e) /\ ~e.untouched THEN {"inputs_untouched"} ELSE {})
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
