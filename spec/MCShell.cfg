SPECIFICATION Spec
CONSTANT MaxParts = 5
VIEW View
PROPERTY Good
CHECK_DEADLOCK FALSE
