SPECIFICATION Spec
CONSTANTS
  Spacings = {1, 2, 3, 7, 120}
  N = 6
  MaxStart = 130
  D = 1000
  Depth = 2
  Gen = TRUE
INVARIANTS GenPrint
