SPECIFICATION Spec
CONSTANTS
  N = 3
  S = 2
  Skip = 1
  Days = 3
  MaxSteps = 18
  Perms <- P2
  Orders <- O2
  Aware = TRUE
INVARIANTS PositionFollowsTime KeyFollowsDay
PROPERTY FollowsMatrixOfTheTime
VIEW Short
