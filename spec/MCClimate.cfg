SPECIFICATION Spec
CONSTANTS
  Spacings = {1, 2, 3, 4}
  N = 6
  MaxStart = 25
  D = 5
  Depth = 4
  Gen = FALSE
INVARIANTS RecordInForce ClockOk WindowStartsInForce RefusedOnlyWhenTooLate ValueOfTheMoment NeverMoreThanADay
