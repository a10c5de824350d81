----------------------------- MODULE MCLighting -----------------------------
(* One household with bulbs; history variables say since when a bulb is on and what was drawn for it. *)
EXTENDS Lighting, TLC, Json
CONSTANTS NB, MaxDur, Depth, Gen
VARIABLES left, age, drawn, lastocc, wasdark, hist
vars == <<left, age, drawn, lastocc, wasdark, hist>>
Bs == 1..NB
Installed == [b \in Bs |-> b # 3]
Power == [b \in Bs |-> IF b = 1 THEN 1 ELSE IF b = 2 THEN 2 ELSE 4]
Init == left = [b \in Bs |-> 0] /\ age = [b \in Bs |-> 0] /\ drawn = [b \in Bs |-> 0] /\ lastocc = 0 /\ wasdark = [b \in Bs |-> FALSE]
        /\ hist = <<>>
Light == \E occ \in 0..1, dark \in (IF Gen THEN {[b \in Bs |-> x] : x \in BOOLEAN} ELSE [Bs -> BOOLEAN]),
         ask \in (IF Gen THEN {[b \in Bs |-> x] : x \in BOOLEAN} ELSE [Bs -> BOOLEAN]),
         d \in (IF Gen THEN {[b \in Bs |-> x] : x \in 1..MaxDur} ELSE [Bs -> 1..MaxDur]) :
     LET N == LightStep(left, Installed, dark, ask, d, occ)
         starts(b) == N[b] > 0 /\ left[b] <= 1
     IN /\ left' = N /\ lastocc' = occ
        /\ age' = [b \in Bs |-> IF starts(b) THEN 1 ELSE IF N[b] > 0 THEN age[b] + 1 ELSE IF left[b] > 1 THEN -1 ELSE IF left[b] = 1 THEN -age[b] - 10 ELSE 0]
        /\ drawn' = [b \in Bs |-> IF starts(b) THEN d[b] ELSE drawn[b]]
        /\ wasdark' = [b \in Bs |-> IF starts(b) THEN dark[b] ELSE wasdark[b]]
        /\ hist' = IF Gen THEN Append(hist, [occ |-> occ, dark |-> dark[1], ask |-> ask[1], d |-> d[1]]) ELSE hist
Next == (Gen => Len(hist) < Depth) /\ Light
Spec == Init /\ [][Next]_vars
NoLightWhenInactive == lastocc = 0 => \A b \in Bs : left[b] = 0
OnlyInstalled == \A b \in Bs : ~Installed[b] => left[b] = 0
OnlyInTheDark == \A b \in Bs : left[b] > 0 => wasdark[b]
\* age -1: went off before its time; age -10-n: went off after n steps
WholeDuration == \A b \in Bs : /\ (age[b] = -1 => lastocc = 0)
                               /\ (age[b] < -1 => (age[b] + 10 = -drawn[b] \/ lastocc = 0))
                               /\ (left[b] > 0 => age[b] + left[b] = drawn[b] + 1)
SumOfOn == HouseholdPower(Power, left) = (IF left[1] > 0 THEN 1 ELSE 0) + (IF NB > 1 /\ left[2] > 0 THEN 2 ELSE 0)
GenPrint == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson([steps |-> hist])>>)
=============================================================================
