SPECIFICATION Spec
CONSTANTS
  Sets <- SetsQ
INVARIANTS Totals TotalTop CurveHoldsEnergy CurveDecreases Diversity EveryChangeOnce ChangesAsDefined
