----------------------------- MODULE SimCoreGen -----------------------------
(* Prints every complete schedule of the exhaustive design (all steps and observations used). *)
EXTENDS SimCore, TLC, Json
Done == phase = "run" /\ k - base = MaxSteps /\ obs = MaxObs
GenNext == /\ Next
           /\ (phase' = "run" /\ k' - base' = MaxSteps /\ obs' = MaxObs) =>
                  PrintT(<<"BEH", ToJson(hist')>>)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
