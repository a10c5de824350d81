SPECIFICATION Spec
CONSTANTS
  Kinds = {"occ", "act"}
  Depth = 0
  Gen = FALSE
  Two = FALSE
INVARIANTS OwnedOnly WholeCycle UseIsWhatIsLeft NotLonger AsActivity ProfileInside
CONSTRAINT Bound
