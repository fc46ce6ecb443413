SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Inverse
CHECK_DEADLOCK FALSE
