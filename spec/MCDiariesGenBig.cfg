SPECIFICATION GenSpec
CONSTANTS
  Sets <- SetsGT
INVARIANTS EveryChange
