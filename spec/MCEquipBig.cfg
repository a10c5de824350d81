SPECIFICATION Spec
CONSTANTS
  MaxApps = 5
  One = 8
  MaxN = 40
  Depth = 0
  Gen = FALSE
INVARIANTS CountingIsTheRule LaterDoNotChangeEarlier NumberIsKept MeanOwned
