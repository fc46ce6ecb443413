SPECIFICATION Spec
CONSTANTS
  Ids = {i1, i2}
  Size = 2
  Levels = 3
  MaxT = 4
  Delays = {0, 1, 3}
  Variant = "nolock"
SYMMETRY Sym
INVARIANTS Enough Once Queued Home Decided OnTime
PROPERTY Refines
CHECK_DEADLOCK FALSE
