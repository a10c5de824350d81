SPECIFICATION GenSpec
CONSTANTS
  N = 2
  S = 2
  Skip = 1
  MaxSteps = 9
  Perms <- P2
  Durations = {1, 2, 4}
  ByPrev = TRUE
INVARIANTS TimeOfDay RunWithinDrawn
PROPERTIES NeverEarly NeverLate
VIEW Short
