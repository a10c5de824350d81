SPECIFICATION GenSpec
CONSTANTS
  Recs <- MCRecs
  Sizes = {1, 2, 3, 5}
  D = 8
  Gaps = {1, 2, 4, 8}
  Watts = {0, 6, 30}
  MaxLen = 4
