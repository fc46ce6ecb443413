SPECIFICATION Spec
CONSTANTS
  MaxEls = 3
  Delays = {0, 1, 2}
  MaxV = 6
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NotEarly OnceOut
PROPERTY InOrder
CHECK_DEADLOCK FALSE
