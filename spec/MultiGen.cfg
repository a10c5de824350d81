CONSTANTS
  MaxParts = 3
  MaxSize = 3
  MaxSteps = 2
  NKw = 1
  Groups = {{}, {"a1"}, {"a1", "b1"}, {"b2"}}
SPECIFICATION GenSpec
