SPECIFICATION Spec
CONSTANTS
  Sheets <- MCSheets
  N = 2
  Unit = 20
  Near = 2
  Most = 6
  Cells = {0, 9, 10, 11, 20}
  Rows = 4
INVARIANTS Distributions InPlace UnreachedStay RefusedWhenBad NothingFromBad
