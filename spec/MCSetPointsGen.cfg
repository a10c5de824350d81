SPECIFICATION Spec
CONSTANTS
  MaxSteps = 99
  Depth = 4
  Gen = TRUE
INVARIANTS GenPrint
