---------------------------- MODULE MCPopulation ----------------------------
EXTENDS Population, TLC, Json
WQ == {r \in UNION {[1..c -> 0..5] : c \in 1..3} : Total(r) \in {3, 5}}
WT == {r \in UNION {[1..c -> 0..7] : c \in 1..4} : Total(r) \in {4, 7}}
GenSpec == Init /\ algo = "proportional" /\ PrintT(<<"BEH", ToJson([w |-> w, n |-> n])>>) /\ [][FALSE]_vars
=============================================================================
