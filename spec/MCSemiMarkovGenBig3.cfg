SPECIFICATION GenSpec
CONSTANTS
  N = 3
  S = 2
  Skip = 1
  MaxSteps = 12
  Perms <- P2
  Durations = {1, 2, 3}
  ByPrev = FALSE
INVARIANTS TimeOfDay RunWithinDrawn
PROPERTIES NeverEarly NeverLate
VIEW Short
