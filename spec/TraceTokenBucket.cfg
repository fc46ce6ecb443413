SPECIFICATION TSpec
CONSTRAINT Report
INVARIANT WithinCapacity
CHECK_DEADLOCK FALSE
