SPECIFICATION GenSpec
CONSTANTS
  N = 3
  S = 3
  Skip = 1
  Days = 3
  MaxSteps = 7
  Perms <- P3
  Orders <- O3
  Aware = FALSE
INVARIANTS PositionFollowsTime
