SPECIFICATION Spec
CONSTANTS
  Peak = 3
  Rate = 2
  MaxT = 10
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT WithinPeak
CHECK_DEADLOCK FALSE
