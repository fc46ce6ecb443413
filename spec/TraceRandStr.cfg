SPECIFICATION TSpec
CONSTANTS
  Digits <- D
  Lowers <- LO
  Uppers <- UP
  Enough = 3000
CONSTRAINT Report
CHECK_DEADLOCK FALSE
