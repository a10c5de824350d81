SPECIFICATION Spec
CONSTANTS
  Kinds = {"occ", "act", "prob"}
  Depth = 5
  Gen = TRUE
  Two = FALSE
INVARIANTS GenPrint
