SPECIFICATION GenSpec
CONSTANTS
  Sets <- SetsG
INVARIANTS TotalTop
