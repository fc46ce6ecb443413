SPECIFICATION TSpec
CONSTANT Threads = {0, 1, 2, 3, 4}
CONSTANT Objs = {1}
CONSTRAINT Report
INVARIANT Bounded
CHECK_DEADLOCK FALSE
