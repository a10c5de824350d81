SPECIFICATION GenSpec
CONSTANTS
  Rows <- RowsG
  M = 8
  Draws = 2
INVARIANTS Valid NeverLost
