------------------------------- MODULE Survey -------------------------------
(* Where a person is, told from a diary that does not say so: a diary is a sequence of activities, each one a journey
   (go) or something with a rating of how likely it is done at home (r: certain from 1 upwards and -2 downwards).  The
   survey says where the day began (1 home, 2 away, -1 not told) and where it ended.  A reader goes through the diary as
   the code does; Where says the same by looking back from any moment, and judges the real code (SurveyTrace).
   After a journey the person is where the activity belongs; when that is open, somewhere else than before.  The last
   journey of the day goes where the survey says the day ended.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells, MaxLen
VARIABLES diary, ini, fin, i, home, before, was, hist
vars == <<diary, ini, fin, i, home, before, was, hist>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Goes(d) == {j \in 1..Len(d) : d[j].go}
LastGo(d) == IF Goes(d) = {} THEN 0 ELSE Max(Goes(d))
Begins(d, b) == IF b = 1 THEN TRUE ELSE IF b = 2 THEN FALSE ELSE d[1].r >= 0
Ends(d, f) == IF f = 1 THEN TRUE ELSE IF f = 2 THEN FALSE ELSE d[Len(d)].r >= 0
Arrives(r, wasHome) == r + (IF wasHome THEN -1 ELSE 1) >= 0

\* ---- looking back
RECURSIVE Where(_, _, _, _)
Where(d, b, f, k) ==
  IF d[k].go THEN FALSE
  ELSE LET J == {j \in Goes(d) : j < k} IN
       IF J = {} THEN Begins(d, b)
       ELSE LET e == Max(J)                                                    \* the journey before k: s .. e
                s == CHOOSE x \in 1..e : (\A y \in x..e : d[y].go) /\ (x = 1 \/ ~d[x - 1].go)
            IN IF e = LastGo(d) THEN Ends(d, f)
               ELSE Arrives(d[e + 1].r, IF s = 1 THEN Begins(d, b) ELSE Where(d, b, f, s - 1))

\* ---- the reader
Init == /\ diary \in UNION {[1..n -> Cells] : n \in 1..MaxLen}
        /\ ini \in {1, 2, -1} /\ fin \in {1, 2, -1}
        /\ i = 0 /\ home = Begins(diary, ini) /\ before = FALSE /\ was = FALSE /\ hist = <<>>
Read ==
  /\ i < Len(diary) /\ i' = i + 1
  /\ LET c == diary[i + 1]
         leaves == c.go /\ ~was
         arrives == ~c.go /\ was
     IN /\ before' = IF leaves THEN home ELSE before
        /\ home' = IF leaves THEN FALSE
                   ELSE IF arrives THEN (IF i = LastGo(diary) THEN Ends(diary, fin) ELSE Arrives(c.r, before))
                   ELSE home
        /\ was' = c.go
        /\ hist' = Append(hist, home')
  /\ UNCHANGED <<diary, ini, fin>>
Next == Read
Spec == Init /\ [][Next]_vars
Done == i = Len(diary)
SameAsLookingBack == \A k \in 1..i : hist[k] = Where(diary, ini, fin, k)
NeverHomeOnAJourney == \A k \in 1..i : diary[k].go => ~hist[k]
StartsWhereSaid == i >= 1 /\ ~diary[1].go => hist[1] = Begins(diary, ini)
MovesOnlyByJourney == \A k \in 1..(i - 1) : hist[k] # hist[k + 1] => diary[k].go \/ diary[k + 1].go
NoJourneyNoMove == Done /\ LastGo(diary) = 0 => \A k \in 1..i : hist[k] = Begins(diary, ini)
EndsWhereSaid == Done /\ LastGo(diary) > 0 /\ ~diary[i].go => hist[i] = Ends(diary, fin)
\* between two journeys: at home for what is surely done at home, away for what surely is not, else not where one came from
Between == {k \in 2..i : ~diary[k].go /\ diary[k - 1].go /\ k < LastGo(diary)}
SureActivities == \A k \in Between : (diary[k].r >= 1 => hist[k]) /\ (diary[k].r <= -2 => ~hist[k])
OpenActivitiesMove == \A k \in Between : diary[k].r \in {-1, 0} =>
     LET s == CHOOSE x \in 1..(k - 1) : (\A y \in x..(k - 1) : diary[y].go) /\ (x = 1 \/ ~diary[x - 1].go)
     IN hist[k] # (IF s = 1 THEN Begins(diary, ini) ELSE hist[s - 1])
=============================================================================
