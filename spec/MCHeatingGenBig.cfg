SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Gen = TRUE
  Wide = TRUE
INVARIANTS GenPrint
