SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Gen = FALSE
  Wide = TRUE
INVARIANTS Hysteresis Capacity NothingLeft WaterFirst ExternalWins Balance DemandReaches Equilibrium
