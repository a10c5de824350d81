---------------------------- MODULE MCAppliance ----------------------------
(* The three simulators on a household with a few appliances; history variables state the property independently of the
   counters: run = steps of the current use, gap = steps off since the last cycle, got = what the last start asked for. *)
EXTENDS Appliance, TLC, Json
CONSTANTS Kinds, Depth, Gen, Two
VARIABLES kind, own, S, before, age, want, gap, why, hist
vars == <<kind, own, S, before, age, want, gap, why, hist>>
A0 == [act |-> "cook", dur |-> 2 * Q, delay |-> 2, inoff |-> TRUE, always |-> FALSE, type |-> "hob", pact |-> "nan", ptype |-> "nan", water |-> FALSE]
A1 == [act |-> "wash", dur |-> Q + 4, delay |-> 0, inoff |-> FALSE, always |-> FALSE, type |-> "machine", pact |-> "nan", ptype |-> "nan", water |-> FALSE]
A2 == [act |-> "iron", dur |-> Q, delay |-> 1, inoff |-> FALSE, always |-> FALSE, type |-> "dryer", pact |-> "nan", ptype |-> "machine", water |-> FALSE]
A3 == [act |-> "wash", dur |-> Q, delay |-> 1, inoff |-> TRUE, always |-> FALSE, type |-> "dish", pact |-> "cook", ptype |-> "nan", water |-> FALSE]
A4 == [act |-> "wash", dur |-> 0, delay |-> 1, inoff |-> TRUE, always |-> FALSE, type |-> "basin", pact |-> "nan", ptype |-> "nan", water |-> TRUE]
Apps == IF Two THEN <<A0, A1>> ELSE <<A0, A1, A2, A3, A4>>
NA == Len(Apps)
Vols == {0, 4, 12}            \* ticks a water event lasts
Acts == {"cook", "wash", "iron"}
Orders == <<"cook", "wash", "iron">>
Prof(i) == IF i = 2 THEN 2 ELSE 0
Dur(i, v) == IF Apps[i].water THEN v ELSE Apps[i].dur
S0 == [i \in 1..NA |-> [left |-> 0, ref |-> 0, used |-> FALSE]]
NoAct == [a \in Acts |-> 0]
Init == /\ kind \in Kinds /\ own \in {[i \in 1..NA |-> TRUE]} \cup (IF Gen THEN {} ELSE {[i \in 1..NA |-> i # 2]})
        /\ S = S0 /\ before = NoAct /\ hist = <<>>
        /\ age = [i \in 1..NA |-> 0] /\ want = [i \in 1..NA |-> 0] /\ gap = [i \in 1..NA |-> 3] /\ why = [i \in 1..NA |-> "none"]
\* history: was the appliance started by this step (its counter grew), stopped by inactivity, or running
Track(T, d, stop) ==
  LET st(i) == T[i].left > S[i].left - Q /\ T[i].left > 0 /\ (T[i].left # S[i].left - Q)
      starts(i) == T[i].left > 0 /\ ~(S[i].left > Q /\ T[i].left = S[i].left - Q)
  IN /\ age' = [i \in 1..NA |-> IF starts(i) THEN 1 ELSE IF T[i].left > 0 THEN age[i] + 1 ELSE 0]
     /\ want' = [i \in 1..NA |-> IF starts(i) THEN CeilSteps(d[i]) ELSE IF T[i].left > 0 THEN want[i] ELSE 0]
     /\ gap' = [i \in 1..NA |-> IF T[i].left > 0 THEN 0 ELSE Lesser(gap[i] + 1, 3)]
     /\ why' = [i \in 1..NA |-> IF starts(i) THEN (IF gap[i] < Apps[i].delay THEN "early" ELSE IF S[i].left > Q THEN "running" ELSE "start")
                                ELSE IF S[i].left > 0 /\ T[i].left <= 0
                                     THEN (IF age[i] = want[i] THEN "ended" ELSE IF stop[i] THEN "inactive" ELSE "cut") ELSE "none"]
Draws == IF Gen THEN {[i \in 1..NA |-> FALSE], [i \in 1..NA |-> TRUE]} ELSE {[i \in 1..NA |-> i \in X] : X \in {{}, 1..NA, {1}, {2, 4}, {3, 5}}}
VolSet == IF Gen THEN {12} ELSE Vols
NowSet == IF Gen THEN {[cook |-> 0, wash |-> 1, iron |-> 0], [cook |-> 1, wash |-> 0, iron |-> 1], [cook |-> 0, wash |-> 0, iron |-> 0]}
          ELSE {[cook |-> x, wash |-> y, iron |-> y] : x \in 0..1, y \in 0..1}
Occ == /\ kind = "occ"
       /\ \E draw \in Draws, v \in VolSet, o \in 0..1 :
            LET d == [i \in 1..NA |-> Dur(i, v)]
                T == OccStep(Apps, S, own, draw, d, o)
            IN /\ S' = T /\ Track(T, d, [i \in 1..NA |-> o = 0 /\ Apps[i].inoff])
               /\ hist' = IF Gen THEN Append(hist, [draw |-> draw[1], v |-> v, occ |-> o]) ELSE hist
       /\ UNCHANGED <<kind, own, before>>
Prob == /\ kind = "prob"
        /\ \E draw \in Draws, v \in VolSet, now \in NowSet :
             LET d == [i \in 1..NA |-> Dur(i, v)]
                 acts == [k \in 1..3 |-> <<Orders[k], now[Orders[k]]>>]
                 T == ProbStep(Apps, S, own, draw, d, before, acts)
             IN /\ S' = T /\ Track(T, d, [i \in 1..NA |-> before[Apps[i].act] > 0 /\ now[Apps[i].act] = 0 /\ Apps[i].inoff])
                /\ before' = now
                /\ hist' = IF Gen THEN Append(hist, [draw |-> draw[1], v |-> v, now |-> [k \in 1..3 |-> now[Orders[k]]]]) ELSE hist
        /\ UNCHANGED <<kind, own>>
Act == /\ kind = "act"
       /\ \E now \in NowSet :
            LET T == ActStep(Apps, S, [i \in 1..NA |-> Prof(i)], before, now) IN
            /\ S' = T /\ before' = now
            /\ hist' = IF Gen THEN Append(hist, [draw |-> FALSE, v |-> 0, now |-> [k \in 1..3 |-> now[Orders[k]]]]) ELSE hist
       /\ UNCHANGED <<kind, own, age, want, gap, why>>
Next == (Gen => Len(hist) < Depth) /\ (Occ \/ Prob \/ Act)
Spec == Init /\ [][Next]_vars
\* the property
OwnedOnly == \A i \in 1..NA : (S[i].used /\ kind # "act") => own[i]
WholeCycle == \A i \in 1..NA : why[i] \notin {"cut", "early", "running"}
UseIsWhatIsLeft == kind # "act" => \A i \in 1..NA : S[i].used <=> S[i].left > 0
NotLonger == kind # "act" => \A i \in 1..NA : S[i].left > 0 => age[i] <= want[i]
\* an appliance driven by its activity is in use exactly while it goes on (here: those that stop with it)
AsActivity == kind = "act" => \A i \in 1..NA : Apps[i].inoff => (S[i].used <=> before[Apps[i].act] > 0)
ProfileInside == kind = "act" => \A i \in 1..NA : (Prof(i) > 0 /\ S[i].used) => S[i].left \in 1..(Prof(i) * Q)
Bound == \A i \in 1..NA : age[i] < 9
GenPrint == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson([kind |-> kind, apps |-> Apps, steps |-> hist])>>)
=============================================================================
