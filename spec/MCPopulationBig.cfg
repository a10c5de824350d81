SPECIFICATION Spec
CONSTANTS
  Weights <- WT
  MaxN = 9
INVARIANT Promised
