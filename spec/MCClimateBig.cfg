SPECIFICATION Spec
CONSTANTS
  Spacings = {1, 2, 3, 4, 5, 7, 24}
  N = 40
  MaxStart = 300
  D = 24
  Depth = 40
  Gen = FALSE
INVARIANTS RecordInForce ClockOk WindowStartsInForce RefusedOnlyWhenTooLate ValueOfTheMoment NeverMoreThanADay
