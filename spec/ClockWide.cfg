CONSTANTS
  DAY = 24
  FOUR = 8
  HOUR = 3
  Starts = {148, 149, 150, 163, 164, 171, 187, 192}
  Steps = {1, 5, 7, 24, 30, 47}
  InitTimes = {0, 1, 5, 8, 22, 23}
  InitDts = {3, 50, 71, 72, 100, 148, 149, 150, 191, 193}
  Refreshes = {0}
  MaxRun = 100
SPECIFICATION Spec
INVARIANTS ClockExact InitExact NeverOvershoots TimeKindWithinADay Refresh
