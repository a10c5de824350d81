SPECIFICATION Spec
CONSTANTS
  Kinds = {"occ", "act", "prob"}
  Depth = 6
  Gen = TRUE
  Two = FALSE
INVARIANTS GenPrint
