SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Gen = FALSE
  Wide = FALSE
INVARIANTS Hysteresis Capacity NothingLeft WaterFirst ExternalWins Balance DemandReaches Equilibrium
