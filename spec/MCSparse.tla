------------------------------ MODULE MCSparse ------------------------------
EXTENDS Sparse, TLC, Json
A == << <<4, 0>>, <<1, 3>> >>
B == << <<0, 4>>, <<4, 0>> >>
C == << <<0, 0>>, <<2, 2>> >>
MatsQ == {A, B, C}
Done == Len(hist') = MaxOps
GenNext == /\ Next
           /\ (Done => PrintT(<<"BEH", ToJson([final |-> [t \in 1..NT |-> dense'[t - 1]], ops |-> hist'])>>))
GenInit == Init /\ dense = [t \in Times |-> IF t = 0 THEN A ELSE B]
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
