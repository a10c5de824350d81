SPECIFICATION Spec
CONSTANTS
  MaxSteps = 99
  Depth = 6
  Gen = TRUE
INVARIANTS GenPrint
