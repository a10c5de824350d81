SPECIFICATION Spec
CONSTANTS
  MaxApps = 0
  One = 2
  MaxN = 0
  Depth = 3
  Gen = TRUE
INVARIANTS GenPrint
