------------------------------ MODULE Lighting ------------------------------
(* Lighting of one household.
   Bulb model: left[b] = steps bulb b still stays on.  A step takes one off every bulb that is on, then every bulb that is
   installed, off, in the dark (irradiance below the household's threshold, or the one case in twenty) and drawn is
   switched on for its drawn duration; a household without active occupants has everything off.
   Occupancy model: active occupants * use per person * clipped irradiance factor.
   Numbers: draws in 128ths, thresholds in thousandths, relative uses in millionths, effective occupancy in eighths,
   the calibration is 1/16.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets
LogStep == 1596030           \* 2.30258... * ln 2 in millionths: relative use of a draw of 1/2
\* is a draw u below effective occupancy * relative use / 16:  u/128 < (eff/8) * (rel/10^6) / 16
Margin(u, eff, rel) == eff * rel - u * 1000000
Sure(u, eff, rel) == Margin(u, eff, rel) > 200
Close(u, eff, rel) == Margin(u, eff, rel) \in -200..200      \* within the rounding of the recorded numbers
Dark(irr, thr, u) == irr < thr \/ u * 20 < 128
Lower(left) == [b \in DOMAIN left |-> IF left[b] > 0 THEN left[b] - 1 ELSE 0]
\* drawn[b]: does the draw of bulb b ask for it; dur[b]: the duration it would get
LightStep(left, installed, dark, drawn, dur, occ) ==
  [b \in DOMAIN left |->
     IF occ = 0 THEN 0
     ELSE IF Lower(left)[b] > 0 THEN Lower(left)[b]
     ELSE IF installed[b] /\ dark[b] /\ drawn[b] THEN dur[b] ELSE 0]
RECURSIVE PowerOf(_, _, _)
PowerOf(power, left, b) == IF b = 0 THEN 0 ELSE (IF left[b] > 0 THEN power[b] ELSE 0) + PowerOf(power, left, b - 1)
HouseholdPower(power, left) == PowerOf(power, left, Len(power))
\* the interval of durations a draw falls into (cdf in 128ths), and the duration in whole steps
Interval(cdf, u) == CHOOSE i \in 1..Len(cdf) : cdf[i] > u /\ \A j \in 1..(i - 1) : cdf[j] <= u
Duration(low, high, cdf, u) == LET i == Interval(cdf, u) IN (low[i] * 128 + u * (high[i] - low[i])) \div 128
\* occupancy model, in 32nds of a watt for thresholds 32 apart
Factor32(irr, lo, hi) == IF irr <= lo THEN hi - lo ELSE IF irr >= hi THEN 0 ELSE hi - irr
FisherPower(occ, use, irr, lo, hi) == occ * use * Factor32(irr, lo, hi)
\* sampling the bulbs: mean + std * z bulbs (whole ones, at least one), each of the type a draw falls into
Trunc(a) == IF a >= 0 THEN a \div 2 ELSE -((-a) \div 2)
NumberOfBulbs(mean2, std2, z) == LET n == Trunc(mean2 + std2 * z) IN IF n < 1 THEN 1 ELSE n
=============================================================================
