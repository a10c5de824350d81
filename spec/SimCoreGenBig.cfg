CONSTANTS
  Getters = {"g1", "g2"}
  Logged = {"g1"}
  MaxInit = 2
  MaxSteps = 4
  MaxObs = 4
SPECIFICATION GenSpec
