----------------------------- MODULE MonteCarlo -----------------------------
(* Drawing an outcome: a scan of the cumulated distribution for the interval that holds the random number.
   A row is a sequence of weights; its sum may be short of D (a rounded distribution); u is in units of 1/M.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rows, M, Draws
VARIABLES row, u, i, out, hist
vars == <<row, u, i, out, hist>>

RECURSIVE Cum(_, _)
Cum(r, j) == IF j = 0 THEN 0 ELSE r[j] + Cum(r, j - 1)
Total(r) == Cum(r, Len(r))
\* the interval of outcome j (1-based) of the distribution r holds x/m
Holds(r, j, x, m) == /\ j \in 1..Len(r)
                     /\ Cum(r, j - 1) * m <= x * Total(r)
                     /\ x * Total(r) < Cum(r, j) * m
Outcome(r, x, m) == CHOOSE j \in 1..Len(r) : Holds(r, j, x, m)
Proper(r) == Total(r) > 0 /\ \A j \in 1..Len(r) : r[j] >= 0
\* a sequence of cumulated values (unit: one) is a valid distribution, with a tolerance of eps on its end
ValidCdf(c, one, eps) == /\ \A j \in 1..Len(c) : 0 <= c[j] /\ c[j] <= one + eps
                         /\ \A j \in 1..(Len(c) - 1) : c[j] <= c[j + 1]
                         /\ c[Len(c)] > one - eps /\ c[Len(c)] < one + eps

Init == row \in Rows /\ u \in 0..(M - 1) /\ i = 0 /\ out = 0 /\ hist = <<>>
Scan == /\ out = 0 /\ i < Len(row)
        /\ i' = i + 1
        /\ out' = IF u * Total(row) < Cum(row, i + 1) * M THEN i + 1 ELSE 0
        /\ hist' = IF out' = 0 THEN hist ELSE Append(hist, <<row, u, out'>>)
        /\ UNCHANGED <<row, u>>
Again == /\ out # 0 /\ Len(hist) < Draws
         /\ out' = 0 /\ i' = 0 /\ row' \in Rows /\ u' \in 0..(M - 1) /\ UNCHANGED hist
Next == Scan \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan)

Valid == out # 0 => /\ Holds(row, out, u, M) /\ row[out] > 0
                    /\ \A j \in 1..Len(row) : Holds(row, j, u, M) => j = out
NeverLost == i = Len(row) => out # 0
Finds == []<>(out # 0)
=============================================================================
