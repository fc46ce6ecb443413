SPECIFICATION Spec
CONSTANTS
  Kind = "fixed"
  Caps = {4}
  MaxCap = 4
  Mod = 7
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NeverOverfull
PROPERTY FIFO
CHECK_DEADLOCK FALSE
