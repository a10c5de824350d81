------------------------------ MODULE MCChain ------------------------------
EXTENDS Chain, TLC, Json
P2 == {<<1, 2>>, <<2, 1>>}
O2 == {<<7, 8>>, <<8, 7>>, <<8, 9>>}
P3 == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
O3 == {<<0, 1, 2>>}
GenNext == Next /\ (n' = MaxSteps => PrintT(<<"BEH", ToJson([mats |-> [i \in 1..N |-> mats["wd"][i - 1]], init |-> seen[1], seen |-> seen'])>>))
GenInit == /\ \E m \in [0..(N - 1) -> Perms] : mats = [k \in Keys |-> m]
           /\ labs = [k \in Keys |-> <<0, 1, 2>>]
           /\ day = 0 /\ pos = 0 /\ key = "wd" /\ it = Skip /\ idx \in 1..S /\ n = 0 /\ seen = <<labs["wd"][idx]>>
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
