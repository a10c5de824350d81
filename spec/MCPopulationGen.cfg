SPECIFICATION GenSpec
CONSTANTS
  Weights <- WQ
  MaxN = 12
