SPECIFICATION TSpec
CONSTANT Threads = {0, 1, 2, 3, 4, 5}
CONSTANT Live = TRUE
CONSTRAINT Report
INVARIANT Once
CHECK_DEADLOCK FALSE
