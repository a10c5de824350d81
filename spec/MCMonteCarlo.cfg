SPECIFICATION Spec
CONSTANTS
  Rows <- RowsQ
  M = 8
  Draws = 2
INVARIANTS Valid NeverLost
VIEW Short
