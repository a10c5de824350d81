----------------------------- MODULE SetPoints -----------------------------
(* The room temperature a household asks of its thermostat, by the kind of household.
   A pattern P is [mean, dev, low, half]: its usual temperature, how far above it goes, the temperature of an empty home, and the
   half degree in which comfort changes are made (all in the same unit). *)
EXTENDS Integers, Sequences, FiniteSets
High(P) == P.mean + P.dev
\* fluctuating kinds: leaving, arriving, going to bed, waking up, in this order of importance
FollowRule(P, T, o0, a0, o, a) ==
  IF o = 0 /\ o0 > 0 THEN P.low
  ELSE IF o > 0 /\ o0 = 0 THEN High(P)
  ELSE IF a = 0 /\ a0 > 0 THEN P.mean
  ELSE IF a > 0 /\ a0 = 0 THEN High(P)
  ELSE T
\* what an active household may choose for its comfort
Comfort(P) == { P.mean + k * P.half : k \in 0..(P.dev \div P.half) }
\* the temperatures that may follow: ask is what a change for comfort can be: "never", "always" or "maybe"
Follow(P, T, o0, a0, o, a, ask) ==
  IF a = 0 \/ ask = "never" THEN {FollowRule(P, T, o0, a0, o, a)}
  ELSE IF ask = "always" THEN Comfort(P)
  ELSE Comfort(P) \cup {FollowRule(P, T, o0, a0, o, a)}
Switch(P, o) == IF o > 0 THEN P.mean ELSE P.low
-----------------------------------------------------------------------------
(* constant kinds: the same moments every day, in minutes of the day *)
Wakes == { 10 * k : k \in 36..59 }
Leaves(w) == { w + 30 + 10 * k : k \in 0..19 }
Returns(lv) == { lv + 240 + 10 * k : k \in 0..19 }
Beds == { (10 * k) % 1440 : k \in 120..149 }
\* F = [w, lv, r, b, out]; out: the heating is turned down during the day
FixedRule(P, F, T, m) ==
  IF m = F.w THEN High(P)
  ELSE IF m = F.b THEN P.mean
  ELSE IF m = F.r THEN High(P)
  ELSE IF F.out /\ m = F.lv THEN P.mean - P.dev
  ELSE T
IsFixed(P, F, S, M) == \A k \in 2..Len(S) : S[k] = FixedRule(P, F, S[k - 1], M[k])
\* some moments of the day explain the temperatures S seen at the minutes M (S[1] is the start)
Explained(P, S, M) ==
  LET at(v) == { M[k] : k \in { j \in 2..Len(S) : S[j] = v /\ S[j] # S[j - 1] } }
      seen(m) == { S[k] : k \in { j \in 2..Len(S) : M[j] = m } }
      ups == at(High(P)) meds == at(P.mean) lows == at(P.mean - P.dev)
      bs == { b \in Beds : meds \subseteq {b} /\ seen(b) \subseteq {P.mean} }
      ws == { w \in Wakes : Cardinality(ups \ {w}) <= 1 /\ seen(w) \subseteq {High(P)} }
  IN /\ \A k \in 2..Len(S) : S[k] \in {S[k - 1], High(P), P.mean, P.mean - P.dev}
     /\ \E b \in bs, w \in ws :
          \E lv \in Leaves(w) :
            /\ (lows \subseteq {lv})
            /\ \E r \in Returns(lv) :
                 /\ (ups \subseteq {w, r}) /\ (r = b \/ seen(r) \subseteq {High(P)})
                 /\ \E out \in (IF lows # {} THEN {TRUE} ELSE BOOLEAN) :
                      IsFixed(P, [w |-> w, lv |-> lv, r |-> r, b |-> b, out |-> out], S, M)
=============================================================================
