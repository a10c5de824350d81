SPECIFICATION Spec
CONSTANTS
  NB = 3
  MaxDur = 4
  Depth = 0
  Gen = FALSE
INVARIANTS NoLightWhenInactive OnlyInstalled OnlyInTheDark WholeDuration SumOfOn
