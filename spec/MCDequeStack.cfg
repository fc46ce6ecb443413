SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  Values = {1, 2, 3}
  MaxLen = 3
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY LIFO
CHECK_DEADLOCK FALSE
