------------------------------- MODULE Tables -------------------------------
(* What tables of measurements and statistics stand for: recordings of devices, ownership of appliances, sheets.
   A recording is a sequence of <<second of the day, watts>>, seconds increasing.  Between two entries the load changes
   evenly; loads are counted in 1/D of a watt, D being a multiple of every gap.  A meter reads one second after the other
   and closes a step of n seconds with the energy of its seconds; what is left at the end is a step of its own.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Recs, Sizes, D
VARIABLES rec, n, i, acc, prof
vars == <<rec, n, i, acc, prof>>
RECURSIVE SumTo(_, _, _)
SumTo(x, a, b) == IF a > b THEN 0 ELSE x[a] + SumTo(x, a + 1, b)
Sum(x) == SumTo(x, 1, Len(x))
First(r) == r[1][1]
Last(r) == r[Len(r)][1]
LoadAt(r, s) ==
  LET k == CHOOSE j \in 1..(Len(r) - 1) : r[j][1] <= s /\ s < r[j + 1][1]
  IN  r[k][2] * D + (r[k + 1][2] - r[k][2]) * (s - r[k][1]) * (D \div (r[k + 1][1] - r[k][1]))
Seconds(r) == [k \in 1..(Last(r) - First(r)) |-> LoadAt(r, First(r) + k - 1)]
NSteps(len, size) == (len + size - 1) \div size
Min(a, b) == IF a < b THEN a ELSE b
\* energy of every step
Profile(r, size) ==
  LET x == Seconds(r) IN [k \in 1..NSteps(Len(x), size) |-> SumTo(x, (k - 1) * size + 1, Min(k * size, Len(x)))]
\* the device is on from the first to the last step of more than 6 watts
OnSteps(e, size) == {k \in 1..Len(e) : e[k] > 6 * size * D}
OnPart(e, size) ==
  LET X == OnSteps(e, size)
      a == CHOOSE k \in X : \A j \in X : k <= j
      b == CHOOSE k \in X : \A j \in X : k >= j
  IN  SubSeq(e, a, b)
\* ---- owning a first, a second, ... appliance, from the share of households that own one and the number owned per 1000
RECURSIVE Rest(_)
Rest(m) == IF m <= 1000 THEN <<m>> ELSE <<1000>> \o Rest(m - 1000)
Split(p, m) == <<p>> \o Rest(m - p)
\* ---- the meter
Init == /\ rec \in Recs /\ n \in Sizes
        /\ i = 0 /\ acc = 0 /\ prof = <<>>
Total == Last(rec) - First(rec)
Second == /\ i < Total
          /\ i' = i + 1
          /\ LET a == acc + LoadAt(rec, First(rec) + i) IN
             IF i' % n = 0 \/ i' = Total THEN prof' = Append(prof, a) /\ acc' = 0 ELSE prof' = prof /\ acc' = a
          /\ UNCHANGED <<rec, n>>
Next == Second
Spec == Init /\ [][Next]_vars
EnergyKept == Sum(prof) + acc = SumTo(Seconds(rec), 1, i)
AsDefined == i = Total => prof = Profile(rec, n) /\ acc = 0
NoEmptyStep == Len(prof) * n < i + n
\* trapezoids: between entries the energy of the seconds is the energy of the line, up to half a change per gap
Crop == (i = Total /\ OnSteps(prof, n) # {}) =>
          LET c == OnPart(prof, n) IN
          /\ c[1] > 6 * n * D /\ c[Len(c)] > 6 * n * D
          /\ Cardinality(OnSteps(c, n)) = Cardinality(OnSteps(prof, n))
=============================================================================
