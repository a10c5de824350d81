SPECIFICATION Spec
CONSTANTS
  Sets <- SetsT
INVARIANTS Totals TotalTop CurveHoldsEnergy CurveDecreases Diversity EveryChangeOnce ChangesAsDefined
