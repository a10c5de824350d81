--------------------------- MODULE SubgroupsTrace ---------------------------
(* Judges recorded uses of the subgroup functions.  st: text -> the subgroup that had it. *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
S == INSTANCE Subgroups WITH Names <- {}, Values <- {}, Dates <- {}, MaxOps <- 0, sg <- 0, hist <- 0, last <- 0
Cfg == Traces[t].cfg
Sg(x) == {<<a[1], <<a[2], a[3]>>>> : a \in Range(x)}
TextClauses(e) ==
  [ same_in_any_order |-> e.other = e.text,
    one_text_per_subgroup |-> e.text \in DOMAIN st => st[e.text] = Sg(e.sg),
    untouched |-> e.same ]
TimeClauses(e) ==
  LET f == Range(e.f) IN
  [ two_day_types_refused |-> e.refused = S!RefusedTime(f),
    time_attributes |-> ~e.refused => Sg(e.got) = S!AddTime(Sg(e.sg), f, e.d[1], e.d[2], e.d[3]) ]
RemoveClauses(e) == [ removes_exactly_time |-> Sg(e.got) = S!RemoveTime(Sg(e.sg)), untouched |-> e.same ]
PersonClauses(e) ==
  LET s == Sg(e.sg) IN
  [ one_person_per_resident |-> Len(e.got) = S!Residents(s),
    persons_of_household |-> Len(e.got) = S!Residents(s) =>
          LET g == [k \in 1..Len(e.got) |-> Sg(e.got[k])] w == S!Persons(s)
          IN \A p \in Range(g) \cup Range(w) :
               Cardinality({k \in DOMAIN g : g[k] = p}) = Cardinality({k \in DOMAIN w : w[k] = p}),
    untouched |-> e.same ]
ListClauses(e) == [ list_of_households |-> e.each = e.together, untouched |-> e.same ]
\* the order that recognises equal subgroups is strict and total
OrderClauses(e) == [ strictly_ordered |-> IF Sg(e.a) = Sg(e.b) THEN e.gt = FALSE /\ e.lt = FALSE /\ e.eq = TRUE
                                         ELSE e.gt # e.lt /\ e.eq = FALSE,
                     transitive |-> (e.gt /\ e.bc) => e.ac ]
Clauses(e) ==
  CASE Raised(e)        -> {"raised"}
    [] e.op = "text"    -> Failing(TextClauses(e))
    [] e.op = "time"    -> Failing(TimeClauses(e))
    [] e.op = "remove"  -> Failing(RemoveClauses(e))
    [] e.op = "persons" -> Failing(PersonClauses(e))
    [] e.op = "list"    -> Failing(ListClauses(e))
    [] e.op = "order"   -> Failing(OrderClauses(e))
    [] OTHER            -> {"unknown_event"}
NextSt(e) == IF e.op = "text" /\ ~(e.text \in DOMAIN st)
             THEN [x \in DOMAIN st \cup {e.text} |-> IF x = e.text THEN Sg(e.sg) ELSE st[x]] ELSE st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = [x \in {} |-> {}] /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
