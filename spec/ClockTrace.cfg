CONSTANTS
  DAY = 86400
  FOUR = 14400
  HOUR = 3600
SPECIFICATION Spec
