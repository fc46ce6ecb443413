SPECIFICATION Spec
CONSTANTS
  Limit = 2
  Window = 4
  MaxT = 14
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS WithinQuota Quota
PROPERTY RefusedOnlyWhenUsed
CHECK_DEADLOCK FALSE
