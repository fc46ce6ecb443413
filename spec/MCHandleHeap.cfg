SPECIFICATION Spec
CONSTANTS
  MaxIds = 4
  Prios = {1, 2, 3}
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY DeadHandleInert
CHECK_DEADLOCK FALSE
