SPECIFICATION Spec
CONSTANTS
  N = 2
  S = 3
  Skip = 1
  MaxSteps = 8
  Perms <- P3
  Durations = {0, 1, 2, 5}
  ByPrev = TRUE
INVARIANTS TimeOfDay RunWithinDrawn
PROPERTIES NeverEarly NeverLate
VIEW Short
