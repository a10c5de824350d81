SPECIFICATION Spec
CONSTANTS
  Names <- NT
  Values <- V
  Dates <- DT
  MaxOps = 2
INVARIANTS OneValue RemoveExact TimeExact
PROPERTY Others
