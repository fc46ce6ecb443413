SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Values = {1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PopMinimal
CHECK_DEADLOCK FALSE
