SPECIFICATION Spec
CONSTANTS
  Digits <- D
  Lowers <- L
  Uppers <- UP
  Enough = 1000
VIEW View
CONSTRAINT Bound
INVARIANT Inside
PROPERTY Exact
CHECK_DEADLOCK FALSE
