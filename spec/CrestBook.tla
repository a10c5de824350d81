------------------------------ MODULE CrestBook ------------------------------
(* The workbook of the CREST model and what its reader makes of it.
   A sheet of transitions has one row for every time and state, in this order, with the weight of every next state. A state
   without weights is never reached: it stays. Weights are read as proportions of their row; a row whose weights do not nearly
   make up one (Unit) is no distribution, and such a sheet is refused.
   Households of up to Most residents start in a state <<present, active>>; the sheet of starting states lists the states of the
   largest household, so that smaller ones take the lines of theirs.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sheets, N, Unit, Near, Most
VARIABLES sheet, k, out, verdict
vars == <<sheet, k, out, verdict>>
RECURSIVE SumTo(_, _)
SumTo(x, m) == IF m = 0 THEN 0 ELSE SumTo(x, m - 1) + x[m]
Sum(x) == SumTo(x, Len(x))
NoDistribution(c) == Sum(c) # 0 /\ (Sum(c) <= Unit - Near \/ Sum(c) >= Unit + Near)
\* proportions as weights over a total
Stay(i, n) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
Weights(c, i) == IF Sum(c) = 0 THEN Stay(i, Len(c)) ELSE c
Total(c) == IF Sum(c) = 0 THEN 1 ELSE Sum(c)
\* the row of the sheet of a time and a state, all from 0
Line(t, i, n) == t * n + i
\* ---- the reader
StateOf(j) == ((j - 1) % N) + 1
Init == sheet \in Sheets /\ k = 0 /\ out = <<>> /\ verdict = "reading"
Read == /\ verdict = "reading" /\ k < Len(sheet)
        /\ k' = k + 1
        /\ IF NoDistribution(sheet[k + 1]) THEN verdict' = "refused" /\ out' = <<>>
           ELSE /\ out' = Append(out, <<Weights(sheet[k + 1], StateOf(k + 1)), Total(sheet[k + 1])>>)
                /\ verdict' = IF k + 1 = Len(sheet) THEN "read" ELSE "reading"
        /\ sheet' = sheet
Next == Read
Spec == Init /\ [][Next]_vars
\* ---- every row read is a distribution, of the right time and state; unreached states stay; nothing is read from a bad sheet
Distributions == \A j \in 1..Len(out) : Sum(out[j][1]) = out[j][2] /\ out[j][2] > 0
InPlace == verdict = "read" => /\ Len(out) = Len(sheet)
                               /\ \A t \in 0..(Len(sheet) \div N - 1), i \in 0..(N - 1) :
                                     LET j == Line(t, i, N) + 1 IN
                                     out[j] = <<Weights(sheet[j], i + 1), Total(sheet[j])>>
UnreachedStay == \A j \in 1..Len(out) : Sum(sheet[j]) = 0 => out[j] = <<Stay(StateOf(j), N), 1>>
RefusedWhenBad == (verdict = "refused") = (\E j \in 1..k : NoDistribution(sheet[j]))
NothingFromBad == verdict = "refused" => out = <<>>
\* ---- the states of a household of n residents among those of the largest one, lines from 0
States(n) == {<<p, a>> : p \in 0..n, a \in 0..n}
LineOf(s) == s[1] * (Most + 1) + s[2]
NthState(n, m) == <<m \div (n + 1), m % (n + 1)>>
StartLines(n) == [m \in 1..((n + 1) * (n + 1)) |-> LineOf(NthState(n, m - 1))]
ASSUME \A n \in 0..Most : /\ {StartLines(n)[m] : m \in DOMAIN StartLines(n)} = {LineOf(s) : s \in States(n)}
                          /\ \A m \in 1..(Len(StartLines(n)) - 1) : StartLines(n)[m] < StartLines(n)[m + 1]
=============================================================================
