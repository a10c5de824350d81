SPECIFICATION GenSpec
CONSTANTS
  Sets <- SetsT
INVARIANTS TotalTop
