SPECIFICATION Spec
CONSTANTS
  Cap = 3
  Rate = 2
  MaxT = 10
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT WithinCapacity
CHECK_DEADLOCK FALSE
