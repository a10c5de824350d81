SPECIFICATION HistSpec
CONSTANTS
  Procs = {"p"}
  Items = {"i"}
  Parts = 1
  MaxStops = 0
  MaxLoads = 0
  Whole = TRUE
  Versions = {1, 2}
  Keys = {1, 2}
  Fates = {"ok", "fail", "stop", "full"}
  Steps = 4
  Turns = 0
INVARIANTS NeverTorn RightValue OwnFiles ParsedAtMostOnce StoredNotParsed StoredStays
