------------------------------ MODULE ClockGen ------------------------------
(* Prints every configuration of the exhaustive design, for replay (the runs themselves are deterministic). *)
EXTENDS Clock, Json
GenInit == Init /\ PrintT(<<"BEH", ToJson(cfg)>>)
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
