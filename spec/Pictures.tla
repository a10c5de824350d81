------------------------------ MODULE Pictures ------------------------------
(* What a picture of recorded profiles shows.  A logger keeps records, one row of households per visit; the last record is
   not part of the profiles.  A picture is a bag of lines <<name, values>>; stacked areas are bands <<from, to>> per moment,
   each drawn on top of the ones before.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, Values, MaxOps
VARIABLES recs, ops, band
vars == <<recs, ops, band>>
RECURSIVE SumTo(_, _)
SumTo(x, k) == IF k = 0 THEN 0 ELSE SumTo(x, k - 1) + x[k]
Sum(x) == SumTo(x, Len(x))
\* ---- lines
Shown(r) == IF r = <<>> THEN <<>> ELSE SubSeq(r, 1, Len(r) - 1)
\* parts of what is recorded: a name in the dictionary ("": it is not a dictionary) and its row for a record
Twice(v) == [h \in 1..Len(v) |-> 2 * v[h] + 1]
Parts(kind, v) == CASE kind \in {"rows", "one"} -> <<<<"", v>>>>
                    [] kind \in {"dict", "onedict"} -> <<<<"p", v>>, <<"q", Twice(v)>>>>
\* a record of single numbers has no households
Single(kind) == kind \in {"one", "onedict"}
Number(kind, agg, row) == IF Single(kind) THEN row[1] ELSE Sum(row)
\* the lines of an attribute: what: 0 a line, h > 0 the line of a household
Lines(kind, agg, merge, r) ==
  IF r = <<>> THEN {<<"", 0, <<>>>>}
  ELSE UNION {LET part == Parts(kind, r[1])[p][1]
                  row(k) == Parts(kind, r[k])[p][2]
                  n == Len(r) - 1
              IN IF Single(kind) \/ agg \/ merge
                 THEN {<<part, 0, [k \in 1..n |-> Number(kind, agg, row(k))]>>}
                 ELSE {<<part, h, [k \in 1..n |-> row(k)[h]]>> : h \in 1..Len(row(1))}
              : p \in 1..Len(Parts(kind, r[1]))}
\* ---- bands: what is below band k, and its top
Below(s, k, t) == SumTo([j \in 1..Len(s) |-> s[j][t]], k - 1)
Top(s, k, t) == Below(s, k, t) + s[k][t]
\* ---- a logger, whose rows are also drawn as bands over the households, one after the other
Init == recs = <<>> /\ ops = 0 /\ band = <<>>
Visit == /\ ops < MaxOps
         /\ \E v \in [1..H -> Values] : recs' = Append(recs, v)
         /\ ops' = ops + 1 /\ band' = <<>>
Clear == ops < MaxOps /\ recs # <<>> /\ recs' = <<>> /\ ops' = ops + 1 /\ band' = <<>>
Column(h) == [k \in 1..(Len(recs) - 1) |-> recs[k][h]]
Draw == /\ Len(recs) > 1 /\ Len(band) < H
        /\ LET h == Len(band) + 1
               lo == IF band = <<>> THEN [k \in 1..(Len(recs) - 1) |-> 0] ELSE band[Len(band)][2]
           IN band' = Append(band, <<lo, [k \in 1..(Len(recs) - 1) |-> lo[k] + Column(h)[k]]>>)
        /\ UNCHANGED <<recs, ops>>
Next == Visit \/ Clear \/ Draw
Spec == Init /\ [][Next]_vars
Kinds == {"rows", "one", "dict", "onedict"}
AsLong == \A kd \in Kinds, a \in BOOLEAN, m \in BOOLEAN : \A l \in Lines(kd, a, m, recs) : Len(l[3]) = Len(Shown(recs))
Merged == recs # <<>> =>
  \A kd \in {"rows", "dict"} : \A l \in Lines(kd, FALSE, TRUE, recs) :
    LET own == {x \in Lines(kd, FALSE, FALSE, recs) : x[1] = l[1]}
    IN /\ \A h \in 1..H : Cardinality({x \in own : x[2] = h}) = 1
       /\ \A k \in 1..Len(l[3]) : l[3][k] = Sum([h \in 1..H |-> (CHOOSE x \in own : x[2] = h)[3][k]])
AggregatedIsMerged == recs # <<>> => \A kd \in {"rows", "dict"} : Lines(kd, TRUE, FALSE, recs) = Lines(kd, FALSE, TRUE, recs)
BandsAsDefined == LET s == [h \in 1..H |-> Column(h)] IN
  \A b \in 1..Len(band) : \A k \in 1..(Len(recs) - 1) : band[b][1][k] = Below(s, b, k) /\ band[b][2][k] = Top(s, b, k)
TopIsTotal == Len(band) = H => \A k \in 1..(Len(recs) - 1) : band[H][2][k] = Sum(recs[k])
=============================================================================
