SPECIFICATION TSpec
CONSTANT Threads = {0, 1, 2, 3, 4, 5}
CONSTANT Live = FALSE
CONSTRAINT Report
INVARIANT Once
CHECK_DEADLOCK FALSE
