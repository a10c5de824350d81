CONSTANTS
  Mats <- MatsQ
  NT = 2
  NS = 2
  MaxOps = 3
  D = 4
SPECIFICATION GenSpec
