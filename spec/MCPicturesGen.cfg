SPECIFICATION GenSpec
CONSTANTS
 H = 2
 Values = {0, 1, 5}
 MaxOps = 3
