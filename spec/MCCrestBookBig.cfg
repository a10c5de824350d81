SPECIFICATION Spec
CONSTANTS
  Sheets <- MCSheets
  N = 3
  Unit = 20
  Near = 2
  Most = 6
  Cells = {0, 6, 8, 10, 20}
  Rows = 3
INVARIANTS Distributions InPlace UnreachedStay RefusedWhenBad NothingFromBad
