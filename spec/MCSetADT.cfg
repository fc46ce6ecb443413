SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Dom = {1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY Inert
CHECK_DEADLOCK FALSE
