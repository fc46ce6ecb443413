SPECIFICATION TSpec
CONSTRAINT Report
INVARIANT NeverOverfull
CHECK_DEADLOCK FALSE
