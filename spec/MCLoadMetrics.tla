--------------------------- MODULE MCLoadMetrics ---------------------------
EXTENDS LoadMetrics, TLC, Json
All(n, t, V) == [1..n -> [1..t -> V]]
SetsQ == UNION {All(1, 4, 0..3), All(2, 3, {0, 1, 3}), All(1, 1, 0..2), All(2, 2, 0..2), All(3, 2, {0, 2})}
SetsT == UNION {SetsQ, All(1, 6, 0..3), All(2, 4, {0, 1, 3}), All(3, 3, {0, 1}), All(2, 3, 0..4)}
SetsG == UNION {All(1, 3, 0..3), All(2, 2, {0, 1, 3}), All(1, 2, 0..4), All(2, 3, {0, 1, 4}), All(3, 2, {0, 2})}
GenNext == Next /\ (i' = T(P) => PrintT(<<"BEH", ToJson(P)>>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
