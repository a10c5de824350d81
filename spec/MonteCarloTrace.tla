-------------------------- MODULE MonteCarloTrace --------------------------
(* Judges recorded draws and validity checks.  rows: weights; outs 0-based; us in 1/Cfg.m when the numbers were
   scripted and consumed.                                                                                     *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
M == INSTANCE MonteCarlo WITH Rows <- {}, M <- 1, Draws <- 0, row <- 0, u <- 0, i <- 0, out <- 0, hist <- 0
Cfg == Traces[t].cfg
RowAt(e, k) == IF Len(e.rows) = 1 THEN e.rows[1] ELSE e.rows[k]
DrawClauses(e) ==
  [ one_per_draw     |-> Len(e.outs) = e.n,
    valid_outcome    |-> \A k \in 1..Len(e.outs) : (e.outs[k] + 1) \in 1..Len(RowAt(e, k)),
    never_impossible |-> \A k \in 1..Len(e.outs) : (e.outs[k] + 1) \in 1..Len(RowAt(e, k)) => RowAt(e, k)[e.outs[k] + 1] > 0,
    inverts          |-> e.scripted => /\ Len(e.outs) = e.n
                                       /\ \A k \in 1..Len(e.outs) : M!Holds(RowAt(e, k), e.outs[k] + 1, e.us[k], Cfg.m),
    input_untouched  |-> e.same ]
\* rows drawn together do not share their number, and neither do two calls
IndependentClauses(e) == [ draws_independent |-> Cardinality(Range(e.outs)) > 1, fresh_numbers |-> e.outs # e.again ]
ValidClauses(e) ==
  [ accepts_exactly_proper |-> e.accepted = (~e.nan /\ \A k \in 1..Len(e.cdfs) : M!ValidCdf(e.cdfs[k], Cfg.one, Cfg.eps)) ]
RescaleClauses(e) ==
  LET tot(r) == IF e.what = "pdf" THEN SumSeq(r) ELSE r[Len(r)]
      ok == \A k \in 1..Len(e.rows) : tot(e.rows[k]) > 900 /\ tot(e.rows[k]) < 1100
  IN [ refuses_far_from_one |-> e.accepted = ok,
       rescaled_to_one |-> e.accepted => \A k \in 1..Len(e.rows), j \in 1..Len(e.rows[1]) :
                              LET d == e.got[k][j] * tot(e.rows[k]) - e.rows[k][j] * 10000
                              IN d <= 1200 /\ -d <= 1200 ]
Clauses(e) ==
  CASE Raised(e)            -> {"raised"}
    [] e.op = "draw"        -> Failing(DrawClauses(e))
    [] e.op = "independent" -> Failing(IndependentClauses(e))
    [] e.op = "valid"       -> Failing(ValidClauses(e))
    [] e.op = "rescale"     -> Failing(RescaleClauses(e))
    [] OTHER                -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t /\ st' = st
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
