SPECIFICATION GenSpec
CONSTANTS
  Sheets <- MCSheets
  N = 4
  Unit = 1000
  Near = 100
  Most = 6
  Cells = {0, 1, 49, 120, 250, 310, 380, 500, 940}
  Rows = 1
