----------------------------- MODULE Appliance -----------------------------
(* The appliances of one household.  Time is counted in ticks, Q ticks per simulation step, as water events may last a
   part of a step.  An appliance is a record
     act   related activity           dur   duration in ticks          delay  steps it stays off after a cycle
     inoff stops when inactive        always related activity 'level' or 'constant'
     type, pact, ptype  its type, and the activity / appliance type it follows ("nan": none)
   and its state is [left |-> ticks left, ref |-> steps until it may start again, used |-> in use].
   "used" is derived from left, except in the simulator driven by activities, where it is what the activities say and
   left is the position in the recorded profile.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Q == 8
CeilSteps(d) == (d + Q - 1) \div Q
Lesser(a, b) == IF a < b THEN a ELSE b
On(s) == s.left > 0
\* one step passes
Dec(s) == [s EXCEPT !.left = IF @ > 0 THEN @ - Q ELSE @, !.ref = IF @ > 0 THEN @ - 1 ELSE @]
\* owned, not running and not in its delay
Can(s, own) == own /\ s.left <= 0 /\ s.ref <= 0
Started(a, s, d) == [s EXCEPT !.left = d, !.ref = CeilSteps(d) + a.delay]
Stopped(a, s) == [s EXCEPT !.left = 0, !.ref = a.delay]
Inactive(a, s) == [s EXCEPT !.left = 0, !.ref = Lesser(@, a.delay)]
WithUse(s) == [s EXCEPT !.used = On(s)]

(* Occupancy driven: every appliance that can start does so if it is drawn (draw[i]); nobody active stops those that
   need somebody.  d[i] is the duration a start would have.                                                          *)
OccStep(apps, S, own, draw, d, occ) ==
  [i \in DOMAIN apps |->
     LET s1 == Dec(S[i])
         s2 == IF Can(s1, own[i]) /\ draw[i] THEN Started(apps[i], s1, d[i]) ELSE s1
         s3 == IF occ = 0 /\ apps[i].inoff THEN Inactive(apps[i], s2) ELSE s2
     IN WithUse(s3)]

(* Driven by activities: in use from the step the activity starts to the step it stops; a recorded profile (len[i] > 0
   samples) starts with the activity and is repeated while time passes.                                              *)
ActDec(s, len) == LET s1 == Dec(s) IN IF s.left > 0 /\ s1.left <= 0 THEN [s1 EXCEPT !.left = @ + len * Q] ELSE s1
ActStart(s, len) == [s EXCEPT !.used = TRUE, !.left = len * Q]
ActStep(apps, S, len, before, now) ==
  [i \in DOMAIN apps |->
     LET a == apps[i]
         s1 == ActDec(S[i], len[i])
     IN IF a.act \notin DOMAIN now THEN s1
        ELSE LET b == before[a.act] n == now[a.act] IN
             CASE b > 0 /\ n = 0 -> [s1 EXCEPT !.used = IF a.inoff THEN FALSE ELSE @]
               [] b = 0 /\ n > 0 -> ActStart(s1, len[i])
               [] OTHER -> s1]

(* Driven by activities and probabilities.  acts: the activities of this step in their order, as <<name, number>>.   *)
Dictated(a) == a.pact # "nan" \/ a.ptype # "nan"
ProbActivity(apps, S, own, draw, d, name, b, n) ==
  [i \in DOMAIN apps |->
     LET a == apps[i]
         stops == b > 0 /\ n = 0
         s2 == IF stops /\ a.act = name /\ a.inoff THEN Stopped(a, S[i]) ELSE S[i]
         s3 == IF stops /\ a.pact = name /\ Can(s2, own[i]) /\ draw[i] THEN Started(a, s2, d[i]) ELSE s2
         s4 == IF n > 0 /\ a.act = name /\ ~Dictated(a) /\ Can(s3, own[i]) /\ draw[i] THEN Started(a, s3, d[i]) ELSE s3
     IN s4]
RECURSIVE ProbActivities(_, _, _, _, _, _, _)
ProbActivities(apps, S, own, draw, d, before, acts) ==
  IF acts = <<>> THEN S
  ELSE ProbActivities(apps, ProbActivity(apps, S, own, draw, d, acts[1][1], before[acts[1][1]], acts[1][2]),
                      own, draw, d, before, Tail(acts))
ProbStep(apps, S, own, draw, d, before, acts) ==
  LET S1 == [i \in DOMAIN apps |-> Dec(S[i])]
      ended == {i \in DOMAIN apps : On(S[i]) /\ ~On(S1[i])}
      S2 == [i \in DOMAIN apps |->
               IF /\ apps[i].ptype # "nan" /\ \E j \in ended : apps[j].type = apps[i].ptype
                  /\ Can(S1[i], own[i]) /\ draw[i]
               THEN Started(apps[i], S1[i], d[i]) ELSE S1[i]]
      S3 == ProbActivities(apps, S2, own, draw, d, before, acts)
  IN [i \in DOMAIN apps |-> WithUse(S3[i])]

(* What an appliance consumes: its standby when it is off, else its mean or the sample of its profile the cycle is at. *)
Power(a, s, own, prof) ==
  IF ~own THEN 0
  ELSE IF ~s.used THEN a.std
  ELSE IF prof = <<>> THEN a.mean
  ELSE prof[Len(prof) - (s.left \div Q) + 1]
=============================================================================
