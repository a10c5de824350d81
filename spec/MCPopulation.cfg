SPECIFICATION Spec
CONSTANTS
  Weights <- WQ
  MaxN = 7
INVARIANT Promised
