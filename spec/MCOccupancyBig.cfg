SPECIFICATION Spec
CONSTANTS
  Kinds <- K7
  Counts = {0, 1, 2}
  MaxSubs = 2
  Acts <- A3
INVARIANTS NobodyLost EverybodyOnce Ordered OwnHousehold
CONSTRAINT SmallEnough
