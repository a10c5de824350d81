CONSTANTS
  MaxParts = 4
  MaxSize = 3
  MaxSteps = 3
  NKw = 1
  Groups = {{}, {"a1"}, {"a1", "b1"}, {"b2"}}
SPECIFICATION Spec
INVARIANTS Concatenation Lockstep MaskPartition MaskExact
