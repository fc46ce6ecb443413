SPECIFICATION TSpec
CONSTANTS
  B = 16
  KeySizes <- SizesC
CONSTRAINT Report
CHECK_DEADLOCK FALSE
