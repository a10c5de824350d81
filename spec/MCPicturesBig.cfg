SPECIFICATION MCSpec
CONSTANTS
 H = 3
 Values = {0, 5}
 MaxOps = 4
INVARIANTS AsLong Merged AggregatedIsMerged BandsAsDefined TopIsTotal
