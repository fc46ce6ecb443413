SPECIFICATION TSpec
CONSTANT Objs = {1, 2}
CONSTRAINT Report
INVARIANT NoFalseNegative
CHECK_DEADLOCK FALSE
