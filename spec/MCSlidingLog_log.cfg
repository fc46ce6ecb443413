SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  Strats <- LogStrats
  MaxB = 7
  MaxOps = 100
  Named = TRUE
CONSTRAINT Bound
VIEW WView
ACTION_CONSTRAINT Emit
INVARIANT Bounded
CHECK_DEADLOCK FALSE
