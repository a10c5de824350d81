SPECIFICATION Spec
CONSTANTS
  N = 2
  S = 2
  Skip = 1
  MaxSteps = 12
  Perms <- P2
  Durations = {1, 2, 3}
  ByPrev = TRUE
INVARIANTS TimeOfDay RunWithinDrawn
PROPERTIES NeverEarly NeverLate
VIEW Short
