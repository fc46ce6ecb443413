SPECIFICATION Spec
CONSTANTS
  Kind = "one"
  Values = {"5", "~"}
  Records = 2
  MaxTable = 2
  MaxValues = 2
  MaxRows = 1
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANTS Shape Total
PROPERTIES Grows Keeps Whole
CHECK_DEADLOCK FALSE
