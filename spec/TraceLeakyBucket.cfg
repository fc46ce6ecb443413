SPECIFICATION TSpec
CONSTRAINT Report
INVARIANT WithinPeak
CHECK_DEADLOCK FALSE
