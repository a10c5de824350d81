------------------------------ MODULE Diaries ------------------------------
(* Diaries: for every person the state at every time step, on a cyclic time axis (the first step follows the last).
   A reader goes through them column by column, as the code does, and emits every change of state; the invariants say
   that what it emitted describes the diaries completely: they can be rebuilt from it, the durations fill the time axis,
   and counts made of it are the counts of the diaries.  The operators are used to judge the real code.
   Diaries are sequences of sequences; times start at 0, states are 0 .. K-1.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sets        \* the sets of diaries to explore
VARIABLES D, i, emitted
vars == <<D, i, emitted>>
T(d) == Len(d[1])
Persons(d) == 1..Len(d)
States(d) == UNION {{d[p][k] : k \in 1..Len(d[p])} : p \in Persons(d)}
At(d, p, t) == d[p][(t % T(d)) + 1]
Before(d, p, t) == At(d, p, t + T(d) - 1)
Constant(d, p) == \A t \in 0..(T(d) - 1) : At(d, p, t) = At(d, p, 0)

\* every change of state: <<time, person, new, old>>; ign: the change between the last and the first step is not one
AllTrans(d) == {<<tp[1], tp[2], At(d, tp[2], tp[1]), Before(d, tp[2], tp[1])>> : tp \in (0..(T(d) - 1)) \X Persons(d)}
Changes(d, ign) == {c \in AllTrans(d) : ~(ign /\ c[1] = 0) /\ c[3] # c[4]}
\* the number of steps of the run of person p that begins at t
Length(d, p, t) == CHOOSE n \in 1..T(d) : /\ \A k \in 0..(n - 1) : At(d, p, t + k) = At(d, p, t)
                                          /\ (n = T(d) \/ At(d, p, t + n) # At(d, p, t))
\* as reported with a change: a run cut by the end of the diary has no duration when the end is not a change
Duration(d, p, t, ign) == IF ign /\ t + Length(d, p, t) >= T(d) /\ At(d, p, 0) # At(d, p, T(d) - 1) THEN 0 ELSE Length(d, p, t)
\* the runs: <<person, start, state, length>>; a diary without change is one run
Runs(d) == {<<c[2], c[1], c[3], Length(d, c[2], c[1])>> : c \in Changes(d, FALSE)}
           \cup {<<p, 0, At(d, p, 0), T(d)>> : p \in {x \in Persons(d) : Constant(d, x)}}
\* the first run as seen from the start, not going over the end
First(d, p) == CHOOSE n \in 1..T(d) : /\ \A k \in 0..(n - 1) : At(d, p, k) = At(d, p, 0)
                                      /\ (n = T(d) \/ At(d, p, n) # At(d, p, 0))
Count(d, t, a, b) == Cardinality({p \in Persons(d) : Before(d, p, t) = a /\ At(d, p, t) = b})
ChangeCount(d, t, a, b, ign) == Cardinality({c \in Changes(d, ign) : c[1] = t /\ c[4] = a /\ c[3] = b})
DurCount(d, t, b, n, ign) == Cardinality({c \in Changes(d, ign) : c[1] = t /\ c[3] = b /\ Duration(d, c[2], t, ign) = n})
DurCountPrev(d, t, a, b, n, ign) == Cardinality({c \in Changes(d, ign) : c[1] = t /\ c[3] = b /\ c[4] = a /\ Duration(d, c[2], t, ign) = n})
\* the matrix of time 0 is that of the last step, or the one from the end to the start
Moment(d, t, algo) == IF t = 0 /\ algo = "last" THEN T(d) - 1 ELSE t

\* what is left when only the changes of person p are known, with its last state
RECURSIVE Rebuilt(_, _, _, _)
Rebuilt(cs, p, last, t) ==      \* the state at t, looking back
  IF \E c \in cs : c[1] = t /\ c[2] = p THEN (CHOOSE c \in cs : c[1] = t /\ c[2] = p)[3]
  ELSE IF t = 0 THEN last ELSE Rebuilt(cs, p, last, t - 1)

Init == D \in Sets /\ i = 0 /\ emitted = {}
Read == /\ i < T(D) /\ i' = i + 1 /\ D' = D
        /\ emitted' = emitted \cup {<<i, p, At(D, p, i), Before(D, p, i)>> : p \in {x \in Persons(D) : At(D, x, i) # Before(D, x, i)}}
Next == Read
Spec == Init /\ [][Next]_vars
Done == i = T(D)
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(S \ {x}, f)
Sum(S, f(_)) == SumF(S, [x \in S |-> f(x)])
\* ---- what has been emitted says it all
EveryChange == Done => emitted = Changes(D, FALSE)
Rebuildable == Done => \A p \in Persons(D), t \in 0..(T(D) - 1) : Rebuilt(emitted, p, At(D, p, T(D) - 1), t) = At(D, p, t)
OncePerMoment == \A c, e \in emitted : c[1] = e[1] /\ c[2] = e[2] => c = e
RunsFill == i = 0 => \A p \in Persons(D) : Sum({r \in Runs(D) : r[1] = p}, LAMBDA r : r[4]) = T(D)
RunsCover == i = 0 => \A p \in Persons(D), t \in 0..(T(D) - 1) : \E r \in Runs(D) : r[1] = p /\ r[3] = At(D, p, t) /\ \E k \in 0..(r[4] - 1) : (r[2] + k) % T(D) = t
RunsMaximal == i = 0 => \A r \in Runs(D) : Constant(D, r[1]) \/ (At(D, r[1], r[2] + r[4]) # r[3] /\ Before(D, r[1], r[2]) # r[3])
Balanced == i = 0 => \A t \in 0..(T(D) - 1), s \in States(D) :
              /\ Sum(States(D), LAMBDA a : Count(D, t, a, s)) = Cardinality({p \in Persons(D) : At(D, p, t) = s})
              /\ Sum(States(D), LAMBDA b : Count(D, t, s, b)) = Cardinality({p \in Persons(D) : Before(D, p, t) = s})
              /\ Sum(0..T(D), LAMBDA n : DurCount(D, t, s, n, FALSE)) = Sum(States(D) \ {s}, LAMBDA a : ChangeCount(D, t, a, s, FALSE))
              /\ \A ign \in BOOLEAN, n \in 0..T(D) : DurCount(D, t, s, n, ign) = Sum(States(D), LAMBDA a : DurCountPrev(D, t, a, s, n, ign))
FirstWithin == i = 0 => \A p \in Persons(D) : First(D, p) = T(D) <=> Constant(D, p)
IgnoredOnlyAtStart == i = 0 => Changes(D, FALSE) \ Changes(D, TRUE) = {c \in Changes(D, FALSE) : c[1] = 0}
=============================================================================
