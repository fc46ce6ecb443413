SPECIFICATION TSpec
CONSTANT Objs = {1, 2}
CONSTRAINT Report
INVARIANT Bounded
CHECK_DEADLOCK FALSE
