SPECIFICATION Spec
CONSTANTS
  MaxApps = 3
  One = 2
  MaxN = 6
  Depth = 0
  Gen = FALSE
INVARIANTS CountingIsTheRule LaterDoNotChangeEarlier NumberIsKept MeanOwned
