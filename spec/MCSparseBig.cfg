CONSTANTS
  Mats <- MatsQ
  NT = 3
  NS = 2
  MaxOps = 4
  D = 4
SPECIFICATION Spec
INVARIANTS Same NoZeros OneEach Inversion
