SPECIFICATION TSpec
CONSTANT Threads = {0, 1, 2, 3, 4}
CONSTRAINT Report
INVARIANT WithinCapacity
CHECK_DEADLOCK FALSE
