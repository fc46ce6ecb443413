SPECIFICATION Spec
CONSTANT Max = 2
VIEW View
PROPERTY Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
