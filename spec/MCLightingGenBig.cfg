SPECIFICATION Spec
CONSTANTS
  NB = 2
  MaxDur = 2
  Depth = 4
  Gen = TRUE
INVARIANTS GenPrint
