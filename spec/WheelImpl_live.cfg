SPECIFICATION LiveSpec
CONSTANTS
  Ids = {i1, i2}
  Size = 2
  Levels = 2
  MaxT = 2
  Delays = {0, 1}
  Variant = "code"
PROPERTY NeverStuck
CHECK_DEADLOCK FALSE
