SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  Strats <- WinStrats
  MaxB = 7
  MaxOps = 100
  Named = FALSE
CONSTRAINT Bound
VIEW WView
ACTION_CONSTRAINT Emit
INVARIANT Bounded
CHECK_DEADLOCK FALSE
