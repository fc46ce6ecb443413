SPECIFICATION Spec
CONSTANTS
  Peak = 3
  Rate = 2
  MaxT = 7
CONSTRAINT Bound
VIEW FullView
INVARIANTS WithinPeak Rateful
CHECK_DEADLOCK FALSE
