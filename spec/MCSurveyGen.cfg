SPECIFICATION GenSpec
CONSTANTS
  Cells <- GenFew
  MaxLen = 5
INVARIANTS SameAsLookingBack
