SPECIFICATION Spec
CONSTANTS
  Sets <- SetsT
INVARIANTS EveryChange Rebuildable OncePerMoment RunsFill RunsCover RunsMaximal Balanced FirstWithin IgnoredOnlyAtStart
