SPECIFICATION GenSpec
CONSTANTS
  Cells <- Few
  MaxLen = 5
INVARIANTS SameAsLookingBack
