----------------------------- MODULE StoreTrace -----------------------------
(* Recorded loads judged against Store: what a load may return and how often it may parse, given which items are
   stored for sure (a load of them returned) and which may be stored (a load of them was stopped or ran out of disk). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceLib
VARIABLES t, l, bad, sure, may
Right(e) == e.res = e.i
Load(e) ==
  [ returns |-> e.fate = "ok" => e.res # -1,
    value |-> e.res \in {-1, 0} \/ Right(e),
    failing_parse_is_seen |-> e.fate = "fail" => (e.res = -1 \/ e.i \in sure \cup may),
    stored_not_parsed |-> e.i \in sure => e.parsed = <<>> /\ (e.fate # "stop" => Right(e)),
    parsed_when_missing |-> (e.fate = "ok" /\ e.i \notin sure \cup may) => e.parsed = <<e.i>>,
    parsed_at_most_once |-> e.parsed \in {<<>>, <<e.i>>} ]
Together(e) ==
  LET L == e.loads IN
  [ returns |-> \A x \in Range(L) : x.res # -1,
    value |-> \A x \in Range(L) : x.res \in {-1, x.i},
    parsed_at_most_once |-> \A x \in Range(L) : x.parsed \in {<<>>, <<x.i>>},
    stored_not_parsed |-> \A x \in Range(L) : x.i \in sure => x.parsed = <<>>,
    parsed_when_missing |-> \A x \in Range(L) : x.i \notin sure \cup may => \E y \in Range(L) : y.i = x.i /\ y.parsed = <<x.i>> ]
Clear(e) == [ returns |-> e.res # -1, asked_until_answered |-> e.asked = e.answers ]
\* the part from the last data point that is not after the start; refused when the data end before the start
Part(e) ==
  LET T == Traces[t].cfg.times
      n == Len(T)
      k == Cardinality({ j \in 1..n : T[j] <= e.start })
      from == IF k = 0 THEN 1 ELSE k
  IN [ refused_iff_after_the_end |-> e.refused = (e.start > T[n]),
       part |-> ~e.refused => e.got = SubSeq(T, from, n) /\ e.val = e.got ]
Clauses(e) ==
  CASE e.op = "raised" -> {"raised"}
    [] e.op = "load" -> Failing(Load(e))
    [] e.op = "together" -> Failing(Together(e))
    [] e.op = "clear" -> Failing(Clear(e))
    [] e.op = "part" -> Failing(Part(e))
    [] OTHER -> {"unknown_event"}
Sure(e) ==
  CASE e.op = "load" /\ e.res > 0 -> sure \cup {e.i}
    [] e.op = "together" -> sure \cup { x.i : x \in Range(e.loads) }
    [] e.op = "clear" -> sure \ Range(e.ids)
    [] OTHER -> sure
May(e) ==
  CASE e.op = "load" /\ e.fate \in {"stop", "full"} -> may \cup {e.i}
    [] e.op = "load" /\ e.fate = "ok" /\ e.res > 0 -> may \ {e.i}
    [] e.op = "clear" -> (may \ Range(e.ids)) \cup Range(e.again)
    [] OTHER -> may
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ sure = {} /\ may = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e) /\ sure' = Sure(e) /\ may' = May(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad, sure, may>>
=============================================================================
