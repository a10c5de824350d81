------------------------------ MODULE SimCore ------------------------------
(* The core every demod simulator is built on: a state that only step() changes, getters cached between steps,
   a logger visited once per step and once when the starting state is ready.

   The state is represented by k, the number of state changes since construction; a getter or a log record is
   represented by the k it shows.  Freshness, alignment and observer independence are invariants.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Getters, Logged, MaxInit, MaxSteps, MaxObs
ASSUME Logged \subseteq Getters

VARIABLES k,        \* state changes so far
          count,    \* current_time_step
          cache,    \* getter -> k it was computed at, or -1
          log,      \* records: the k each one shows (the last one is the state that is still current)
          base,     \* k when the starting state was ready
          phase, todo, shown, obs, hist
vars == <<k, count, cache, log, base, phase, todo, shown, obs, hist>>

Empty == [g \in Getters |-> -1]
\* one visit of the logger reads every logged getter, through the cache
Visit(c, kk) == [g \in Getters |-> IF g \in Logged THEN (IF c[g] = -1 THEN kk ELSE c[g]) ELSE c[g]]

\* a simulator is ready when its initialisation steps are done; then the log holds exactly one record
Init == /\ k = 0 /\ count = 0 /\ cache = Empty /\ log = <<>> /\ base = 0
        /\ phase = "init" /\ todo \in 0..MaxInit /\ shown = -1 /\ obs = 0
        /\ hist = <<>>

\* body first (the state changes), then the step counter, the cache, the logger
Body == k' = k + 1
Close == /\ count' = count + 1
        /\ cache' = Visit(Empty, k')
        /\ log' = Append(log, k')
InitStep == /\ phase = "init" /\ todo > 0
            /\ Body /\ Close /\ todo' = todo - 1 /\ shown' = -1
            /\ hist' = Append(hist, "init")
            /\ UNCHANGED <<base, phase, obs>>
Ready == /\ phase = "init" /\ todo = 0
         /\ phase' = "run" /\ base' = k
         /\ log' = <<k>> /\ cache' = Visit(cache, k) /\ shown' = -1
         /\ UNCHANGED <<k, count, todo, obs, hist>>
Step == /\ phase = "run" /\ k - base < MaxSteps
        /\ Body /\ Close /\ shown' = -1
        /\ hist' = Append(hist, "step")
        /\ UNCHANGED <<base, phase, todo, obs>>
Get(g) == /\ phase = "run" /\ obs < MaxObs
          /\ cache' = [cache EXCEPT ![g] = IF @ = -1 THEN k ELSE @]
          /\ shown' = cache'[g] /\ obs' = obs + 1
          /\ hist' = Append(hist, g)
          /\ UNCHANGED <<k, count, log, base, phase, todo>>
ReadLog == /\ phase = "run" /\ obs < MaxObs
           /\ obs' = obs + 1 /\ shown' = -1 /\ hist' = Append(hist, "log")
           /\ UNCHANGED <<k, count, cache, log, base, phase, todo>>
ClearLog == /\ phase = "run" /\ obs < MaxObs
            /\ obs' = obs + 1 /\ shown' = -1 /\ log' = <<>> /\ hist' = Append(hist, "clear")
            /\ UNCHANGED <<k, count, cache, base, phase, todo>>
Next == InitStep \/ Ready \/ Step \/ (\E g \in Getters : Get(g)) \/ ReadLog \/ ClearLog
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what the checks rely on
Fresh == shown \in {-1, k}                                      \* a getter shows the current state
CacheFresh == \A g \in Getters : cache[g] \in {-1, k}
Counter == count = k
Aligned == (phase = "run" /\ Len(log) > 0) => (/\ log[Len(log)] = k
                                               /\ \A i \in 1..Len(log) : log[i] = k - Len(log) + i)
Cleared == \E i \in 1..Len(hist) : hist[i] = "clear"
FullLog == (phase = "run" /\ ~Cleared) => Len(log) = k - base + 1
OnlyStepsChange == [][k' # k => (count' = count + 1)]_vars

\* ---------------------------------------------------------------- the toy simulators of the conformance check
\* value of household i (0-based) after kk state changes
Val(i, kk) == 7 * kk * kk + 100 * kk + i * (kk + 1)
X(n, kk) == [i \in 1..n |-> Val(i - 1, kk)]
Y(n, kk) == [i \in 1..n |-> 2 * Val(i - 1, kk) + 1]
=============================================================================
