------------------------------ MODULE MCTables ------------------------------
EXTENDS Tables, TLC, Json
CONSTANTS Gaps, Watts, MaxLen
RECURSIVE From(_, _, _)
From(s, w, k) == {<<<<s, w>>>>} \cup (IF k <= 1 THEN {} ELSE {<<<<s, w>>>> \o r : r \in UNION {From(s + g, v, k - 1) : g \in Gaps, v \in Watts}})
MCRecs == UNION {From(10, w, MaxLen) : w \in Watts}
ASSUME \A p \in {0, 300, 1000}, m \in {0, 300, 999, 1000, 1001, 1300, 2000, 2300, 4001} :
          p <= m => /\ Sum(Split(p, m)) = m /\ Split(p, m)[1] = p
                    /\ \A k \in 2..Len(Split(p, m)) : Split(p, m)[k] <= 1000 /\ (k < Len(Split(p, m)) => Split(p, m)[k] = 1000)
GenNext == Next /\ (i' = Total => PrintT(<<"BEH", ToJson([rec |-> rec, n |-> n])>>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
