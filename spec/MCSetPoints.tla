---------------------------- MODULE MCSetPoints ----------------------------
(* A household of each kind, living any short life. *)
EXTENDS SetPoints, TLC, Json
CONSTANTS MaxSteps, Depth, Gen
VARIABLES o, a, f, s, c, was, woke, k, hist
vars == <<o, a, f, s, c, was, woke, k, hist>>
P == [mean |-> 40, dev |-> 4, low |-> 32, half |-> 1]
OA == { <<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>> } \cup (IF Gen THEN {} ELSE { <<2, 2>> })
\* a day of 12 moments for the constant kind
F == [w |-> 3, lv |-> 5, r |-> 8, b |-> 11, out |-> TRUE]
Init == /\ \E x \in OA : o = x[1] /\ a = x[2] /\ hist = IF Gen THEN <<x>> ELSE <<>>
        /\ f = P.mean /\ s = P.mean /\ c = <<P.mean>> /\ was = "start" /\ woke = FALSE /\ k = 0
Step == /\ (Gen => Len(hist) <= Depth) /\ k < MaxSteps /\ k' = k + 1
        /\ \E x \in OA :
             /\ o' = x[1] /\ a' = x[2]
             /\ f' \in Follow(P, f, o, a, x[1], x[2], "never")
             /\ s' = Switch(P, x[1])
             /\ c' = IF Gen THEN c ELSE Append(c, FixedRule(P, F, c[Len(c)], (k + 1) % 12))
             \* ghosts: the last of leaving, coming, sleeping and waking
             /\ was' = IF x[1] = 0 /\ o > 0 THEN "left" ELSE IF x[1] > 0 /\ o = 0 THEN "came" ELSE IF x[2] = 0 /\ a > 0 THEN "slept" ELSE IF x[2] > 0 /\ a = 0 THEN "woke" ELSE was
             /\ woke' = (x[2] > 0)
             /\ hist' = IF Gen THEN Append(hist, x) ELSE hist
Next == Step
Spec == Init /\ [][Next]_vars
View == <<o, a, f, s, c, was, woke, k>>
OneOfThree == f \in {P.low, P.mean, High(P)} /\ s \in {P.low, P.mean}
WarmOnlyWhenSomeoneIsIn == k > 0 => (s = P.mean <=> o > 0)
LastEventDecides == f = CASE was = "left" -> P.low [] was \in {"came", "woke"} -> High(P) [] OTHER -> P.mean
EmptyIsCold == (o = 0 /\ was # "start") => f = P.low
AwakeIsWarm == (a > 0 /\ was # "start") => f \in {High(P)}
SameEveryDay == \A j \in 25..Len(c) : c[j] = c[j - 12]
NightIsMedium == \A j \in 13..Len(c) : ((j - 1) % 12 \in {11, 0, 1, 2}) => c[j] = P.mean
ComfortInRange == Comfort(P) = 40..44
GenPrint == (Gen /\ Len(hist) = Depth + 1) => PrintT(<<"BEH", ToJson([steps |-> hist])>>)
=============================================================================
