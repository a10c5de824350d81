---------------------------- MODULE LoadMetrics ----------------------------
(* Load profiles: for every profile the demand at every time step.  A reader goes through them step by step and keeps
   running totals (energy, time at or above each load, largest demand of each profile and of their sum, changes between
   steps); the invariants relate the totals to each other: the load duration curve contains all energy, every change is
   counted once, the diversity factor is never below 1.  The operators are used to judge the real code.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sets        \* the sets of profiles to explore
VARIABLES P, i, energy, above, tops, top, changes
vars == <<P, i, energy, above, tops, top, changes>>
N(p) == Len(p)
T(p) == Len(p[1])
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Loads(p) == {p[n][k] : <<n, k>> \in (1..Len(p)) \X (1..Len(p[1]))}
\* ---- definitions over the whole profiles
Energy(p, n) == SumSeq(p[n])
Duration(p, n, load) == Cardinality({k \in 1..T(p) : p[n][k] >= load})
Top(p, n) == Max({p[n][k] : k \in 1..T(p)})
At(p, k) == SumSeq([n \in 1..N(p) |-> p[n][k]])
TopSum(p) == Max({At(p, k) : k \in 1..T(p)})
SumOfTops(p) == SumSeq([n \in 1..N(p) |-> Top(p, n)])
Steps(p) == (1..N(p)) \X (2..T(p))
Change(p, s) == Abs(p[s[1]][s[2]] - p[s[1]][s[2] - 1])
Below(p, num, den) == Cardinality({s \in Steps(p) : Change(p, s) * den < num})       \* changes smaller than num/den
UpTo(p, num, den) == Cardinality({s \in Steps(p) : Change(p, s) * den <= num})
Largest(p) == Max({Change(p, s) : s \in Steps(p)})
\* ---- the reader
Init == /\ P \in Sets /\ i = 0
        /\ energy = [n \in 1..N(P) |-> 0] /\ tops = [n \in 1..N(P) |-> -1] /\ top = -1 /\ changes = [c \in {} |-> 0]
        /\ above = [n \in 1..N(P) |-> [x \in Loads(P) |-> 0]]
Count(f, c) == IF c \in DOMAIN f THEN [f EXCEPT ![c] = @ + 1] ELSE [x \in DOMAIN f \cup {c} |-> IF x = c THEN 1 ELSE f[x]]
RECURSIVE CountAll(_, _, _)
CountAll(f, n, k) == IF n = 0 THEN f ELSE CountAll(Count(f, Abs(P[n][k] - P[n][k - 1])), n - 1, k)
Read == /\ i < T(P) /\ i' = i + 1 /\ P' = P
        /\ energy' = [n \in 1..N(P) |-> energy[n] + P[n][i + 1]]
        /\ above' = [n \in 1..N(P) |-> [x \in Loads(P) |-> above[n][x] + (IF P[n][i + 1] >= x THEN 1 ELSE 0)]]
        /\ tops' = [n \in 1..N(P) |-> Max({tops[n], P[n][i + 1]})]
        /\ top' = Max({top, At(P, i + 1)})
        /\ changes' = IF i = 0 THEN changes ELSE CountAll(changes, N(P), i + 1)
Next == Read
Spec == Init /\ [][Next]_vars
Done == i = T(P)
\* ---- the totals and the definitions
Totals == Done => \A n \in 1..N(P) : energy[n] = Energy(P, n) /\ tops[n] = Top(P, n) /\ \A x \in Loads(P) : above[n][x] = Duration(P, n, x)
TotalTop == Done => top = TopSum(P)
\* the curve contains all the energy: level by level, what lies between two loads times how long
Previous(x) == IF \E y \in Loads(P) : y < x THEN Max({y \in Loads(P) : y < x}) ELSE 0
RECURSIVE Layers(_, _)
Layers(S, n) == IF S = {} THEN 0 ELSE LET x == Max(S) IN (x - Previous(x)) * above[n][x] + Layers(S \ {x}, n)
CurveHoldsEnergy == Done => \A n \in 1..N(P) : Layers(Loads(P), n) = energy[n]
CurveDecreases == \A n \in 1..N(P) : \A x, y \in Loads(P) : x < y => above[n][x] >= above[n][y]
Diversity == (\A n \in 1..N(P) : tops[n] >= 0) => top <= SumSeq(tops) /\ top * N(P) >= SumSeq(tops)
EveryChangeOnce == Done => SumSeq([k \in 1..Cardinality(DOMAIN changes) |->
                                      changes[CHOOSE c \in DOMAIN changes : Cardinality({d \in DOMAIN changes : d <= c}) = k]]) = N(P) * (T(P) - 1)
ChangesAsDefined == Done => \A c \in DOMAIN changes : changes[c] = UpTo(P, c, 1) - Below(P, c, 1)
=============================================================================
