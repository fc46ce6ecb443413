SPECIFICATION Spec
CONSTANT Home <- HomeC
VIEW View
INVARIANTS Tree Stays Round
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
