CONSTANTS
  Getters = {"g1", "g2"}
  Logged = {"g1"}
  MaxInit = 2
  MaxSteps = 3
  MaxObs = 3
SPECIFICATION Spec
INVARIANTS Fresh CacheFresh Counter Aligned FullLog
PROPERTY OnlyStepsChange
