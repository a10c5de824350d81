------------------------------- MODULE LoadSim -------------------------------
(* The load simulator: climate, activity, appliances, lighting and heating, stepped together.
   What a part puts out is a token (a version number in the design model, a digest of the real values in traces);
   0 stands for "nothing given".  conf.climate, conf.heating: which parts exist.  ext.irr, ext.temp, ...: tokens of
   the inputs given from outside (0: not given).                                                                   *)
EXTENDS Integers
\* refused: without a climate both external inputs are needed
Refused(conf, ext) == ~conf.climate /\ (ext.irr = 0 \/ ext.temp = 0)
Given(ext, own) == IF ext # 0 THEN ext ELSE own
\* how many steps every part makes in load step number k (0-based)
Makes(conf, k) == [ climate |-> IF conf.climate THEN 1 ELSE 0, activity |-> IF k % 10 = 0 THEN 1 ELSE 0,
                    appliances |-> 1, light |-> 1, heating |-> IF conf.heating THEN 1 ELSE 0 ]
\* what every part is given, from the outputs the other parts show in that step
Sees(ext, prod) == [ appl_occ |-> prod.occ, light_occ |-> prod.occ, light_irr |-> Given(ext.irr, prod.irr) ]
SeesHeat(ext, prod) ==
  [ temp |-> Given(ext.temp, prod.temp), irr |-> Given(ext.irr, prod.irr), dhw |-> prod.dhw, g_occ |-> prod.g_occ,
    g_light |-> prod.g_light, g_appl |-> prod.g_appl,
    target |-> ext.target, heat |-> ext.heat, dhw_out |-> ext.dhw_out, sh_out |-> ext.sh_out, cyl |-> ext.cyl ]
ActivitySteps(k) == (k + 9) \div 10       \* made in the first k load steps
==============================================================================
