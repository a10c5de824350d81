----------------------------- MODULE SemiMarkov -----------------------------
(* A semi-Markov chain: whoever enters a state gets a duration and shows that state for exactly that many steps.
   The matrix and the durations of the entry are those of the time of the step that enters; a duration of 0 counts as 1.
   Permutations and one-point durations make every run deterministic.                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, S, Skip, MaxSteps, Perms, Durations, ByPrev
VARIABLES mats, durs, init, it, idx, left, drawn, run, n, seen
vars == <<mats, durs, init, it, idx, left, drawn, run, n, seen>>
AtLeast1(d) == IF d < 1 THEN 1 ELSE d
Dur(p, prev, new) == AtLeast1(durs[p][IF ByPrev THEN prev ELSE new])

Init == /\ mats \in [0..(N - 1) -> Perms] /\ durs \in [0..(N - 1) -> [1..S -> Durations]]
        /\ \E i \in 1..S, d \in Durations : init = <<i, d>>
        /\ it = Skip % N /\ idx = init[1] /\ left = AtLeast1(init[2]) /\ drawn = AtLeast1(init[2]) /\ run = 1
        /\ n = 0 /\ seen = <<init[1]>>
Stay == /\ n < MaxSteps /\ left > 1
        /\ left' = left - 1 /\ run' = run + 1
        /\ UNCHANGED <<idx, drawn>>
Change == /\ n < MaxSteps /\ left = 1
          /\ idx' = mats[it][idx]
          /\ drawn' = Dur(it, idx, idx') /\ left' = drawn' /\ run' = 1
Tick == it' = (it + 1) % N /\ n' = n + 1 /\ seen' = Append(seen, idx') /\ UNCHANGED <<mats, durs, init>>
Next == (Stay /\ Tick) \/ (Change /\ Tick)
Spec == Init /\ [][Next]_vars
Short == <<mats, durs, init, it, idx, left, drawn, run, n>>

TimeOfDay == it = (n + Skip) % N
RunWithinDrawn == run >= 1 /\ run <= drawn /\ run + left = drawn + 1
\* the properties: no change before the drawn duration is over, a change when it is, only along the matrix of the moment,
\* and the new duration is the one of the moment of entry
NeverEarly == [][idx' # idx => run = drawn]_vars
NeverLate == [][run = drawn => (run' = 1 /\ idx' = mats[(n + Skip) % N][idx] /\ drawn' = Dur((n + Skip) % N, idx, idx'))]_vars
=============================================================================
