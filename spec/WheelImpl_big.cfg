SPECIFICATION Spec
CONSTANTS
  Ids = {i1, i2}
  Size = 2
  Levels = 3
  MaxT = 6
  Delays = {0, 1, 2, 3, 5}
  Variant = "code"
SYMMETRY Sym
INVARIANTS Enough Once Queued Home Decided OnTime
PROPERTY Refines
CHECK_DEADLOCK FALSE
