SPECIFICATION Spec
CONSTANTS
  MaxSteps = 12
  Depth = 0
  Gen = FALSE
INVARIANTS Lockstep SeesTheSameMoment ActivityOncePerPeriod
