CONSTANTS
  DAY = 24
  FOUR = 8
  HOUR = 3
  Starts = {40, 48, 49, 55, 56, 57, 59, 71}
  Steps = {1, 2, 3}
  InitTimes = {0, 5, 8, 23}
  InitDts = {33, 47, 48, 56, 60}
  Refreshes = {0, 8, 11}
  MaxRun = 60
SPECIFICATION Spec
INVARIANTS ClockExact InitExact NeverOvershoots TimeKindWithinADay Midnights Fours Refresh
