SPECIFICATION Spec
CONSTANTS
  Names <- N
  Values <- V
  Dates <- D
  MaxOps = 2
INVARIANTS OneValue RemoveExact TimeExact
PROPERTY Others
