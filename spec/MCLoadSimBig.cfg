SPECIFICATION Spec
CONSTANTS
  MaxSteps = 45
  Depth = 0
  Gen = FALSE
INVARIANTS Lockstep SeesTheSameMoment ActivityOncePerPeriod
