CONSTANTS
  DAY = 24
  FOUR = 8
  HOUR = 3
  Starts = {40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 71, 72}
  Steps = {1, 2, 3}
  InitTimes = {0, 1, 5, 7, 8, 9, 10, 11, 12, 22, 23}
  InitDts = {20, 33, 40, 47, 48, 49, 56, 60, 71}
  Refreshes = {0, 1, 7, 8, 11, 23}
  MaxRun = 120
SPECIFICATION Spec
INVARIANTS ClockExact InitExact NeverOvershoots TimeKindWithinADay Midnights Fours Refresh
