SPECIFICATION TurnSpec
CONSTANTS
  Procs = {"p"}
  Items = {"i"}
  Parts = 1
  MaxStops = 0
  MaxLoads = 0
  Whole = TRUE
  Versions = {1, 2}
  Keys = {1}
  Fates = {"ok", "fail", "stop", "full"}
  Steps = 0
  Turns = 11
INVARIANTS NeverTorn RightValue OwnFiles ParsedAtMostOnce StoredNotParsed StoredStays
