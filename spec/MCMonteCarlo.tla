---------------------------- MODULE MCMonteCarlo ----------------------------
EXTENDS MonteCarlo, TLC, Json
RowsQ == {r \in UNION {[1..n -> 0..4] : n \in 1..3} : Total(r) \in {3, 4}}
RowsT == {r \in UNION {[1..n -> 0..8] : n \in 1..4} : Total(r) \in {7, 8}}
RowsG == {r \in UNION {[1..n -> 0..4] : n \in 1..3} : Total(r) = 4}
RowsGT == {r \in UNION {[1..n -> 0..4] : n \in 1..4} : Total(r) = 4}
GenNext == Next /\ (out' # 0 /\ Len(hist') = Draws => PrintT(<<"BEH", ToJson(hist')>>))
Short == <<row, u, i, out, Len(hist)>>
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
