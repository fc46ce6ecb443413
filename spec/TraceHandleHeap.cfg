SPECIFICATION TSpec
CONSTRAINT Report
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
