SPECIFICATION GenSpec
CONSTANTS
  Names <- N
  Values <- V
  Dates <- D
  MaxOps = 3
