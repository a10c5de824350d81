SPECIFICATION GenSpec
CONSTANTS
  Rows <- RowsGT
  M = 8
  Draws = 2
INVARIANTS Valid NeverLost
