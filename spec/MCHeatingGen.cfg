SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Gen = TRUE
  Wide = FALSE
INVARIANTS GenPrint
