SPECIFICATION DesignSpec
CONSTANTS
  Procs = {"p", "q"}
  Items = {"i", "j"}
  Parts = 2
  MaxStops = 1
  MaxLoads = 3
  Whole = TRUE
  Versions = {1, 2}
  Keys = {1, 2}
  Fates = {"ok", "fail", "stop", "full"}
  Steps = 1
  Turns = 1
INVARIANTS NeverTorn RightValue OwnFiles ParsedAtMostOnce StoredNotParsed StoredStays
