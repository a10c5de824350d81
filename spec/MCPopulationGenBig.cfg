SPECIFICATION GenSpec
CONSTANTS
  Weights <- WT
  MaxN = 20
