SPECIFICATION Spec
CONSTANTS
  Kind = "fixed"
  Caps = {3}
  MaxCap = 3
  Mod = 7
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NeverOverfull
PROPERTY FIFO
CHECK_DEADLOCK FALSE
