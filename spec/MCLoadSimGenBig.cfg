SPECIFICATION Spec
CONSTANTS
  MaxSteps = 12
  Depth = 3
  Gen = TRUE
INVARIANTS GenPrint
