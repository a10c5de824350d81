SPECIFICATION Spec
CONSTANTS
  MaxSteps = 200
  Depth = 0
  Gen = FALSE
INVARIANTS OneOfThree WarmOnlyWhenSomeoneIsIn LastEventDecides EmptyIsCold AwakeIsWarm SameEveryDay NightIsMedium ComfortInRange
