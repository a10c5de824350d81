SPECIFICATION GenSpec
CONSTANTS
  Kinds <- KG
  Counts = {0, 1, 3}
  MaxSubs = 2
  Acts <- A3
INVARIANTS NobodyLost EverybodyOnce Ordered OwnHousehold

