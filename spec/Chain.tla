------------------------------- MODULE Chain -------------------------------
(* A first-order chain over labelled states.  The matrices of a day type are used in cyclic order; Skip says which one
   the first step after the refresh takes (dense chains start with the second: the first leads INTO the refresh time).
   At the refresh time the matrices, and with them the order of the labels, become the ones of the new day type.
   Permutation matrices make every run deterministic.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, S, Skip, Days, MaxSteps, Perms, Orders, Aware
VARIABLES mats, labs, day, pos, key, it, idx, n, seen
vars == <<mats, labs, day, pos, key, it, idx, n, seen>>
Keys == {"wd", "we"}
DayKey(d) == IF d % 3 = 2 THEN "we" ELSE "wd"
KeyNow == IF Aware THEN DayKey(day) ELSE "wd"
IndexOf(o, x) == CHOOSE i \in DOMAIN o : o[i] = x
Has(o, x) == \E i \in DOMAIN o : o[i] = x
\* the index, in the new order, of the state called x; a label that is gone becomes the first state
Convert(o, x) == IF Has(o, x) THEN IndexOf(o, x) ELSE 1

Init == /\ mats \in [Keys -> [0..(N - 1) -> Perms]] /\ labs \in [Keys -> Orders]
        /\ day = 0 /\ pos = 0 /\ key = "wd" /\ it = Skip /\ idx \in 1..S /\ n = 0 /\ seen = <<labs["wd"][idx]>>
Reload == pos = 0 /\ Aware
Step ==
  /\ n < MaxSteps
  /\ LET k  == IF Reload THEN DayKey(day) ELSE key
         i0 == IF Reload THEN Skip ELSE it
         x  == IF Reload THEN Convert(labs[k], labs[key][idx]) ELSE idx
     IN /\ key' = k
        /\ it' = (i0 + 1) % N
        /\ idx' = mats[k][i0][x]
        /\ seen' = Append(seen, labs[k][idx'])
  /\ pos' = (pos + 1) % N
  /\ day' = IF pos = N - 1 THEN (day + 1) % Days ELSE day
  /\ n' = n + 1
  /\ UNCHANGED <<mats, labs>>
Next == Step
Spec == Init /\ [][Next]_vars
Short == <<mats, labs, day, pos, key, it, idx, n>>

\* what the properties say, in terms of labels and of the time of day only
Label == labs[key][idx]
PositionFollowsTime == it = (pos + Skip) % N
KeyFollowsDay == n > 0 => key = IF Aware THEN DayKey(IF pos = 0 THEN (day + Days - 1) % Days ELSE day) ELSE "wd"
Successor(k, p, x) == labs[k][mats[k][(p + Skip) % N][Convert(labs[k], x)]]
FollowsMatrixOfTheTime == [][Label' = Successor(KeyNow, pos, Label)]_vars
=============================================================================
