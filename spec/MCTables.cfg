SPECIFICATION Spec
CONSTANTS
  Recs <- MCRecs
  Sizes = {1, 2, 3, 5}
  D = 6
  Gaps = {1, 2, 3}
  Watts = {0, 6, 7, 30}
  MaxLen = 4
INVARIANTS EnergyKept AsDefined NoEmptyStep Crop
