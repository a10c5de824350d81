--------------------------- MODULE PicturesTrace ---------------------------
(* Pictures drawn by the real code, against what was recorded or given. *)
EXTENDS TraceLib
VARIABLES t, l, bad, recs
X == INSTANCE Pictures WITH H <- 1, Values <- {}, MaxOps <- 0, ops <- 0, band <- <<>>
Cfg == Traces[t].cfg
\* ---- the logger: attributes <<name, kind, aggregated>>; panels: sequences of [lines |-> <<name, part, household, xs, ys, kind>>, legend]
Drawn(a) == SelectSeq(a, LAMBDA x : x[2] # "time")
HasTime == \E a \in Range(Cfg.attrs) : a[2] = "time"
Moments(n) == [k \in 1..n |-> k - 1]
Expected(a, merge) == {<<a[1], x[1], x[2], x[3]>> : x \in X!Lines(a[2], a[3], merge, recs)}
Panel(p, a, merge) ==
  /\ {<<p.lines[k][1], p.lines[k][2], p.lines[k][3], p.lines[k][5]>> : k \in 1..Len(p.lines)} = Expected(a, merge)
  /\ Len(p.lines) = Cardinality(Expected(a, merge))
Shape(e) == Len(e.panels) = Len(Drawn(Cfg.attrs))
Figure(e) ==
  LET d == Drawn(Cfg.attrs) IN
  [ one_panel_per_attribute |-> Shape(e),
    lines_are_the_records |-> Shape(e) => \A k \in 1..Len(d) : Panel(e.panels[k], d[k], e.merge),
    over_their_moments |-> \A p \in Range(e.panels) : \A x \in Range(p.lines) : x[4] = Moments(Len(x[5])) /\ x[6] = e.style,
    legend_names_the_lines |-> \A p \in Range(e.panels) : p.legend = [k \in 1..Len(p.lines) |-> <<p.lines[k][1], p.lines[k][2], p.lines[k][3]>>] ]
\* ---- what residents do: rows <<name, number by moment>>, points <<row, moment, number>>
Main == {"active_occupancy", "away", "sleeping"}
Order(e) == IF e.top THEN SelectSeq(e.rows, LAMBDA r : r[1] \notin Main) \o SelectSeq(e.rows, LAMBDA r : r[1] \in Main) ELSE e.rows
Largest(e) == LET S == {1} \cup UNION {Range(r[2]) : r \in Range(e.rows)} IN CHOOSE m \in S : \A x \in S : x <= m
Activities(e) ==
  LET o == Order(e) IN
  [ rows_in_order |-> e.names = [k \in 1..Len(o) |-> o[k][1]],
    points |-> /\ Range(e.points) = UNION {{<<k - 1, e.axis[m], o[k][2][m]>> : m \in {j \in 1..Len(o[k][2]) : o[k][2][j] > 0}} : k \in 1..Len(o)}
               /\ Len(e.points) = Cardinality(Range(e.points)),
    legend |-> e.legend = (IF e.colours THEN [k \in 1..Largest(e) |-> k] ELSE <<>>) ]
\* ---- bands: <<name, twice the lower and the upper bound in the middle between moments>>
Series(e) ==
  CASE e.op = "appliances" ->
         [k \in 1..Len(e.names) |-> [m \in 1..Len(e.use) |-> SumSeq([j \in 1..Len(e.of) |-> IF e.of[j] = e.names[k] THEN e.use[m][j] ELSE 0])]]
    [] e.op = "states" ->
         [k \in 1..Len(e.bands) |-> [m \in 1..Len(e.states[1]) |-> Cardinality({j \in 1..Len(e.states) : e.states[j][m] = k - 1})]]
    [] e.op = "stacked" -> e.use
Twice(s, step, k, m, F(_, _, _)) ==
  CASE step = "post" -> 2 * F(s, k, m) [] step = "pre" -> 2 * F(s, k, m + 1) [] OTHER -> F(s, k, m) + F(s, k, m + 1)
Bands(e) ==
  LET s == Series(e)
      n == Len(e.axis) - 1
  IN
  [ one_band_per_name |-> Len(e.bands) = (IF e.op = "states" THEN 1 + (CHOOSE x \in UNION {Range(r) : r \in Range(e.states)} :
                             \A y \in UNION {Range(r) : r \in Range(e.states)} : y <= x) ELSE Len(e.names)),
    names |-> \A k \in 1..Len(e.bands) : e.bands[k][1] = e.names[k],
    bounds |-> \A k \in 1..Len(e.bands) :
        /\ e.bands[k][2] = [m \in 1..n |-> Twice(s, e.step, k, m, X!Below)]
        /\ e.bands[k][3] = [m \in 1..n |-> Twice(s, e.step, k, m, X!Top)],
    over_the_axis |-> \A k \in 1..Len(e.bands) : e.bands[k][4] = <<e.axis[1], e.axis[Len(e.axis)]>>,
    legend_follows_the_stack |-> e.legend = [k \in 1..Len(e.bands) |-> e.names[Len(e.bands) + 1 - k]] ]
\* shown when no place was given, left to the caller otherwise
Ended(e) == [ shown |-> e.shown = (IF e.op = "states" \/ e.given THEN 0 ELSE 1), returned |-> e.op = "states" => e.returned = ~e.given ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op \in {"visit", "clear"} -> {}
    [] e.op = "figure" -> Failing(Figure(e))
    [] e.op = "activities" -> Failing(Activities(e)) \cup Failing(Ended(e))
    [] e.op \in {"appliances", "states", "stacked"} -> Failing(Bands(e)) \cup Failing(Ended(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ recs = <<>>
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
           /\ bad' = Clauses(e)
           /\ recs' = (IF e.op = "visit" THEN Append(recs, e.row) ELSE IF e.op = "clear" THEN <<>> ELSE recs)
        /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad, recs>>
=============================================================================
