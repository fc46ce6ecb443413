SPECIFICATION Spec
CONSTANTS
  Dirs = {1, 2}
  Names = {"a"}
  Nos = {0, 1}
  Vals = {1, 2}
INVARIANTS Failed Kept
CHECK_DEADLOCK FALSE
