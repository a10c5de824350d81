SPECIFICATION GenSpec
CONSTANTS
  Sets <- SetsG
INVARIANTS EveryChange
