SPECIFICATION GenSpec
CONSTANTS
  N = 3
  S = 2
  Skip = 1
  MaxSteps = 12
  Perms <- P2
  Durations = {0, 2, 5}
  ByPrev = TRUE
INVARIANTS TimeOfDay RunWithinDrawn
PROPERTIES NeverEarly NeverLate
VIEW Short
