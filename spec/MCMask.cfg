SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  LongLen = 20
  MaxN = 18
VIEW View
PROPERTY Good
CHECK_DEADLOCK FALSE
