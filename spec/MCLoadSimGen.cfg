SPECIFICATION Spec
CONSTANTS
  MaxSteps = 12
  Depth = 2
  Gen = TRUE
INVARIANTS GenPrint
