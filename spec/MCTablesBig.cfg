SPECIFICATION Spec
CONSTANTS
  Recs <- MCRecs
  Sizes = {1, 2, 3, 4, 5, 7}
  D = 6
  Gaps = {1, 3}
  Watts = {0, 7, 30}
  MaxLen = 5
INVARIANTS EnergyKept AsDefined NoEmptyStep Crop
