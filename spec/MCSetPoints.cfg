SPECIFICATION Spec
CONSTANTS
  MaxSteps = 40
  Depth = 0
  Gen = FALSE
INVARIANTS OneOfThree WarmOnlyWhenSomeoneIsIn LastEventDecides EmptyIsCold AwakeIsWarm SameEveryDay NightIsMedium ComfortInRange
