CONSTANTS
  Getters = {"g1", "g2"}
  Logged = {"g1"}
  MaxInit = 3
  MaxSteps = 4
  MaxObs = 4
SPECIFICATION Spec
INVARIANTS Fresh CacheFresh Counter Aligned FullLog
PROPERTY OnlyStepsChange
