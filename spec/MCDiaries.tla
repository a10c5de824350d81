----------------------------- MODULE MCDiaries -----------------------------
EXTENDS Diaries, TLC, Json
All(n, t, k) == [1..n -> [1..t -> 0..(k - 1)]]
SetsQ == UNION {All(1, 5, 3), All(1, 1, 2), All(2, 2, 3), All(2, 3, 3), All(3, 3, 2), All(2, 4, 2)}
SetsT == UNION {SetsQ, All(1, 6, 3), All(3, 4, 2), All(2, 5, 2), All(4, 3, 2)}
SetsG == UNION {All(1, 4, 3), All(1, 1, 2), All(1, 2, 2), All(2, 2, 2), All(2, 3, 2), All(2, 3, 3), All(3, 2, 2)}
SetsGT == UNION {SetsG, All(1, 6, 3), All(2, 4, 2), All(3, 3, 2), All(2, 4, 3), All(2, 5, 2)}
GenNext == Next /\ (i' = T(D) => PrintT(<<"BEH", ToJson(D)>>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
