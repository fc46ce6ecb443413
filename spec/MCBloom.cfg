SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Objs = {1}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NoFalseNegative
CHECK_DEADLOCK FALSE
