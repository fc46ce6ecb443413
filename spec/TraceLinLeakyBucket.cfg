SPECIFICATION TSpec
CONSTANT Threads = {0, 1, 2, 3, 4}
CONSTRAINT Report
INVARIANT WithinPeak
CHECK_DEADLOCK FALSE
