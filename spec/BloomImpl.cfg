SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Bits = {1, 2, 3}
VIEW View
INVARIANT NoFalseNegative
PROPERTY Implements
CHECK_DEADLOCK FALSE
