SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Gen = FALSE
  Wide = FALSE
INVARIANTS Hysteresis Capacity NothingLeft WaterFirst ExternalWins Balance DemandReaches Equilibrium
