---------------------------- MODULE MCOccupancy ----------------------------
EXTENDS Occupancy, TLC, Json
K4 == {<<0>>, <<1, 2>>, <<1, 3, 3>>}
K7 == {<<0>>, <<0, 0>>, <<1, 2>>, <<1, 3>>, <<1, 3, 3>>, <<1, 2, 3>>, <<1, 2, 3, 3>>}
KG == {<<0>>, <<1, 2>>, <<1, 3, 3>>, <<1, 2, 3>>, <<0, 0>>}
A3 == {"away", "sleeping", "cooking"}
SmallEnough == Len(Seats(layout)) <= 5
\* generation: everybody of a type does the same
GenNext == UNCHANGED vars /\ FALSE
GenInit == /\ layout \in UNION {[1..m -> [types : Kinds, n : Counts]] : m \in 1..MaxSubs}
           /\ NHH(layout) > 0
           /\ \E f \in [TypesOf(layout) -> Acts] : sub = [ty \in TypesOf(layout) |-> [i \in DOMAIN HhOf(layout, ty) |-> f[ty]]]
           /\ PrintT(<<"BEH", ToJson([layout |-> layout,
                act |-> [k \in 1..Cardinality(TypesOf(layout)) |-> LET ty == CHOOSE x \in TypesOf(layout) : Cardinality({y \in TypesOf(layout) : y < x}) = k - 1 IN <<ToString(ty), sub[ty][1]>>],
                n |-> [a \in Acts |-> [h \in 1..NHH(layout) |-> Doing(layout, sub, a, h)]],
                occ |-> [h \in 1..NHH(layout) |-> Occ(layout, sub, h)],
                active |-> [h \in 1..NHH(layout) |-> ActOcc(layout, sub, h)]])>>)
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
