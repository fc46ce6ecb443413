SPECIFICATION TSpec
CONSTRAINT Report
INVARIANT WithinQuota
CHECK_DEADLOCK FALSE
