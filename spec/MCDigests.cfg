SPECIFICATION Spec
INVARIANTS Shape Differs
CHECK_DEADLOCK FALSE
