SPECIFICATION Spec
CONSTANTS
  Kinds = {"prob", "act", "occ"}
  Depth = 0
  Gen = FALSE
  Two = FALSE
INVARIANTS OwnedOnly WholeCycle UseIsWhatIsLeft NotLonger AsActivity ProfileInside
CONSTRAINT Bound
