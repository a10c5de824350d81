SPECIFICATION DesignSpec
CONSTANTS
  Procs = {"p", "q", "r"}
  Items = {"i", "j"}
  Parts = 2
  MaxStops = 2
  MaxLoads = 4
  Whole = TRUE
  Versions = {1, 2}
  Keys = {1, 2}
  Fates = {"ok", "fail", "stop", "full"}
  Steps = 1
  Turns = 1
INVARIANTS NeverTorn RightValue OwnFiles ParsedAtMostOnce StoredNotParsed StoredStays
