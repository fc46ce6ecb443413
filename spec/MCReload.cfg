SPECIFICATION Spec
CONSTANT Max = 4
INVARIANT OnlyParent
PROPERTIES Together Done
CHECK_DEADLOCK FALSE
