SPECIFICATION GenSpec
CONSTANTS
  N = 2
  S = 2
  Skip = 1
  MaxSteps = 9
  Perms <- P2
  Durations = {0, 1, 3}
  ByPrev = FALSE
INVARIANTS TimeOfDay RunWithinDrawn
PROPERTIES NeverEarly NeverLate
VIEW Short
