------------------------------ MODULE MCClimate ------------------------------
(* The record-by-record simulator and the generated climate, from every start; and the windows of every request. *)
EXTENDS Climate, TLC, Json
CONSTANTS Spacings, N, MaxStart, D, Depth, Gen
VARIABLES sp, start, zone, ph, r, g, k, asked
vars == <<sp, start, zone, ph, r, g, k, asked>>
Rt == [i \in 1..N |-> (i - 1) * sp]
Zones == {-300, -1, 0, 1, 120}
Init == /\ sp \in Spacings /\ start \in 0..MaxStart /\ zone \in (IF Gen THEN Zones ELSE {0}) /\ ph = "asked" /\ k = 0
        /\ asked = WindowFrom(Rt, start)
        /\ r = RealStart(Rt, start) /\ g = GenStart(D)
\* a run starts at midnight and goes on to the requested start
Initialise == ph = "asked" /\ g.now < start /\ g' = GenStep(g, D) /\ UNCHANGED <<sp, start, zone, ph, r, k, asked>>
Go == ph = "asked" /\ g.now >= start /\ asked # 0 /\ ph' = "run" /\ UNCHANGED <<sp, start, zone, r, g, k, asked>>
Step == ph = "run" /\ k < Depth /\ r.pos < N /\ r' = RealStep(r, sp) /\ g' = GenStep(g, D) /\ k' = k + 1 /\ UNCHANGED <<sp, start, zone, ph, asked>>
Next == Initialise \/ Go \/ Step
Spec == Init /\ [][Next]_vars
\* the record shown is the most recent one not after the simulated time
RecordInForce == r.pos = InForce(Rt, r.now)
ClockOk == r.now = start + k * sp
\* the window begins with the record in force
WindowStartsInForce == asked # 0 => (asked = r.pos - k /\ Rt[asked] <= start /\ (asked = N \/ Rt[asked + 1] > start))
RefusedOnlyWhenTooLate == (asked = 0) <=> start > Rt[N]
\* a generated day hands out each of its values once, in order, at its own moment
ValueOfTheMoment == g.shown = <<1 + (g.now \div D), g.now % D>>
NeverMoreThanADay == g.next \in 1..D
GenPrint == (Gen /\ (k = Depth \/ (ph = "asked" /\ asked = 0))) => PrintT(<<"BEH", ToJson([sp |-> sp, start |-> start, zone |-> zone, n |-> N, steps |-> k])>>)
=============================================================================
