SPECIFICATION Spec
CONSTANTS
  Dirs = {1}
  Names = {"a", "a_1"}
  Nos = {0, 1}
  Vals = {1, 2}
VIEW View
INVARIANTS Failed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
