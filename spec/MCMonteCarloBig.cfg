SPECIFICATION Spec
CONSTANTS
  Rows <- RowsT
  M = 16
  Draws = 2
INVARIANTS Valid NeverLost
VIEW Short
