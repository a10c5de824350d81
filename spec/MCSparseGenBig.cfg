CONSTANTS
  Mats <- MatsQ
  NT = 2
  NS = 2
  MaxOps = 4
  D = 4
SPECIFICATION GenSpec
