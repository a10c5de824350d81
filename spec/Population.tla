----------------------------- MODULE Population -----------------------------
(* Handing out n households to subgroups of weights W (sum D), one household after the other: household k stands for
   the k-th of n equal parts of the population; or each is drawn at random.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Weights, MaxN
VARIABLES w, n, k, counts, algo
vars == <<w, n, k, counts, algo>>
RECURSIVE Cum(_, _)
Cum(r, j) == IF j = 0 THEN 0 ELSE r[j] + Cum(r, j - 1)
Total(r) == Cum(r, Len(r))
At(r, x, m) == CHOOSE j \in 1..Len(r) : Cum(r, j - 1) * m <= x * Total(r) /\ x * Total(r) < Cum(r, j) * m

Init == /\ w \in Weights /\ Total(w) > 0 /\ n \in 0..MaxN /\ k = 0 /\ counts = [j \in 1..Len(w) |-> 0]
        /\ algo \in {"proportional", "random"}
Give(j) == counts' = [counts EXCEPT ![j] = @ + 1] /\ k' = k + 1 /\ UNCHANGED <<w, n, algo>>
Proportional == algo = "proportional" /\ k < n /\ Give(At(w, k, n))
Random == algo = "random" /\ k < n /\ \E j \in 1..Len(w) : w[j] > 0 /\ Give(j)
Next == Proportional \/ Random
Spec == Init /\ [][Next]_vars

\* what is promised of the finished counts c
AddsUp(c, m) == Total(c) = m
NonNegative(c) == \A j \in 1..Len(c) : c[j] >= 0
EmptyGetNone(c, r) == \A j \in 1..Len(c) : r[j] = 0 => c[j] = 0
\* |c - n p| <= 1
WithinOne(c, r, m) == \A j \in 1..Len(c) : LET d == c[j] * Total(r) - m * r[j] IN d <= Total(r) /\ -d <= Total(r)
Promised == k = n => /\ AddsUp(counts, n) /\ NonNegative(counts) /\ EmptyGetNone(counts, w)
                     /\ (algo = "proportional" => WithinOne(counts, w, n))
=============================================================================
