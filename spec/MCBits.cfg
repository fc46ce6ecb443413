SPECIFICATION Spec
CONSTANTS
  W = 8
  N = 24
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Nearest
CHECK_DEADLOCK FALSE
