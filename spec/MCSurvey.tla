----------------------------- MODULE MCSurvey -----------------------------
EXTENDS Survey, TLC, Json
Go(r) == [go |-> TRUE, r |-> r]
At(r) == [go |-> FALSE, r |-> r]
Few == {Go(-2), Go(0)} \cup {At(r) : r \in -2..2}
All == {Go(-2), Go(0), Go(1)} \cup {At(r) : r \in -4..4}
GenFew == {Go(-2), Go(0), At(-2), At(-1), At(0), At(1)}
GenInit == Init /\ PrintT(<<"BEH", ToJson([d |-> [k \in 1..Len(diary) |-> <<IF diary[k].go THEN 1 ELSE 0, diary[k].r>>], ini |-> ini, fin |-> fin])>>)
GenNext == FALSE /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
