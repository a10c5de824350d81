SPECIFICATION GenSpec
CONSTANTS
  Recs <- MCRecs
  Sizes = {1, 2, 3, 5}
  D = 4
  Gaps = {1, 2, 4}
  Watts = {0, 6, 30}
  MaxLen = 4
