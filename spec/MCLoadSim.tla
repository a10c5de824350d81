------------------------------ MODULE MCLoadSim ------------------------------
(* One load step in its phases; the parts' outputs are version numbers (their number of steps + 1). *)
EXTENDS LoadSim, Sequences, TLC, Json
CONSTANTS MaxSteps, Depth, Gen
VARIABLES conf, ext, pc, k, v, sees, hist
vars == <<conf, ext, pc, k, v, sees, hist>>
None == [irr |-> 0, temp |-> 0, target |-> 0, heat |-> 0, dhw_out |-> 0, sh_out |-> 0, cyl |-> 0]
V0 == [climate |-> 1, activity |-> 1, appliances |-> 1, light |-> 1, heating |-> 1]
Init == /\ conf \in [climate : BOOLEAN, heating : BOOLEAN] /\ ext = None /\ pc = "idle" /\ k = 0 /\ v = V0 /\ sees = <<>> /\ hist = <<>>
Prod == [occ |-> v.activity, irr |-> v.climate, temp |-> v.climate, dhw |-> v.appliances, g_occ |-> v.activity,
         g_light |-> v.light, g_appl |-> v.appliances]
Exts == [irr : {0, -1}, temp : {0, -2}, target : {0, -3}, heat : {0}, dhw_out : {0, -4}, sh_out : {0}, cyl : {0}]
Ask == /\ pc = "idle" /\ k < MaxSteps
       /\ \E e \in Exts, n \in (IF Gen THEN {0, 8, 9} ELSE {0}) :
            /\ (Gen => Len(hist) < Depth)
            /\ ext' = e
            /\ hist' = IF Gen THEN Append(hist, [ext |-> e, n |-> n]) ELSE hist
            /\ pc' = IF Gen \/ Refused(conf, e) THEN "idle" ELSE "climate"
       /\ sees' = <<>> /\ UNCHANGED <<conf, k, v>>
Climate == /\ pc = "climate" /\ pc' = "activity"
           /\ v' = [v EXCEPT !.climate = @ + (IF conf.climate THEN 1 ELSE 0)] /\ UNCHANGED <<conf, ext, k, sees, hist>>
Activity == /\ pc = "activity" /\ pc' = "appliances"
            /\ v' = [v EXCEPT !.activity = @ + (IF k % 10 = 0 THEN 1 ELSE 0)] /\ UNCHANGED <<conf, ext, k, sees, hist>>
Appl == /\ pc = "appliances" /\ pc' = "light" /\ sees' = Append(sees, Prod.occ)
        /\ v' = [v EXCEPT !.appliances = @ + 1] /\ UNCHANGED <<conf, ext, k, hist>>
Light == /\ pc = "light" /\ pc' = "heating" /\ sees' = Append(sees, <<Prod.occ, Given(ext.irr, Prod.irr)>>)
         /\ v' = [v EXCEPT !.light = @ + 1] /\ UNCHANGED <<conf, ext, k, hist>>
Heating == /\ pc = "heating" /\ pc' = "idle" /\ k' = k + 1 /\ sees' = Append(sees, SeesHeat(ext, Prod))
           /\ v' = [v EXCEPT !.heating = @ + (IF conf.heating THEN 1 ELSE 0)] /\ UNCHANGED <<conf, ext, hist>>
Next == Ask \/ Climate \/ Activity \/ Appl \/ Light \/ Heating
GNext == Ask
Spec == Init /\ [][IF Gen THEN GNext ELSE Next]_vars
Lockstep == pc = "idle" => v = [ climate |-> 1 + (IF conf.climate THEN k ELSE 0), activity |-> 1 + ActivitySteps(k),
                                 appliances |-> 1 + k, light |-> 1 + k, heating |-> 1 + (IF conf.heating THEN k ELSE 0) ]
\* every part saw what the others show at the end of the step
SeesTheSameMoment == (pc = "idle" /\ sees # <<>>) =>
   LET s == Sees(ext, Prod) IN sees = << s.appl_occ, <<s.light_occ, s.light_irr>>, SeesHeat(ext, Prod) >>
ActivityOncePerPeriod == pc = "idle" => (v.activity - 1) * 10 \in k .. (k + 9)
GenPrint == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", ToJson([conf |-> conf, steps |-> hist])>>)
==============================================================================
