------------------------------ MODULE MultiGen ------------------------------
(* Prints every configuration of the design, for replay (runs are deterministic given the configuration). *)
EXTENDS Multi, TLC, Json
GenInit == Init /\ PrintT(<<"BEH", ToJson([sizes |-> sizes, groups |-> groups, npos |-> npos, kw |-> kw])>>)
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
