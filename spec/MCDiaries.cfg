SPECIFICATION Spec
CONSTANTS
  Sets <- SetsQ
INVARIANTS EveryChange Rebuildable OncePerMoment RunsFill RunsCover RunsMaximal Balanced FirstWithin IgnoredOnlyAtStart
