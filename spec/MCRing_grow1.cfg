SPECIFICATION Spec
CONSTANTS
  Kind = "grow"
  Caps = {1}
  MaxCap = 6
  Mod = 7
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NeverOverfull
PROPERTY FIFO
CHECK_DEADLOCK FALSE
