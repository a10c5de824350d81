SPECIFICATION Spec
CONSTANTS
  Spacings = {2, 3, 120}
  N = 5
  MaxStart = 16
  D = 1000
  Depth = 2
  Gen = TRUE
INVARIANTS GenPrint
