CONSTANTS
  DAY = 24
  FOUR = 4
  HOUR = 1
  Starts = {44, 47, 48, 49, 51, 52, 53, 71}
  Steps = {1, 5, 24, 30}
  InitTimes = {0, 1, 4, 5, 22, 23}
  InitDts = {20, 47, 48, 49, 53, 71}
  Refreshes = {0, 4, 5}
  MaxRun = 0
SPECIFICATION GenSpec
