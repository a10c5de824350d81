SPECIFICATION Spec
CONSTANTS
  NB = 2
  MaxDur = 2
  Depth = 3
  Gen = TRUE
INVARIANTS GenPrint
