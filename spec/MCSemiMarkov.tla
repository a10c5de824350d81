---------------------------- MODULE MCSemiMarkov ----------------------------
EXTENDS SemiMarkov, TLC, Json
P2 == {<<1, 2>>, <<2, 1>>}
P3 == {<<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>}
GenNext == Next /\ (n' = MaxSteps => PrintT(<<"BEH", ToJson([mats |-> [i \in 1..N |-> mats[i - 1]],
              durs |-> [i \in 1..N |-> durs[i - 1]], byprev |-> ByPrev, init |-> init, seen |-> seen'])>>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
