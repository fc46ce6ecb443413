SPECIFICATION Spec
CONSTANTS
  Cap = 3
  Rate = 2
  MaxT = 7
CONSTRAINT Bound
VIEW FullView
INVARIANTS WithinCapacity Rateful
CHECK_DEADLOCK FALSE
