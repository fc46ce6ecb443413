SPECIFICATION Spec
CONSTANTS
  Lists = {1, 2}
  MaxHandles = 4
  Values = {7}
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK OneOwner NoDup
PROPERTY ForeignHandleInert
CHECK_DEADLOCK FALSE
