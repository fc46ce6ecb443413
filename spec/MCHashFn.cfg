SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Codes = {11, 12, 13}
  Objs = {1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Injective
CHECK_DEADLOCK FALSE
