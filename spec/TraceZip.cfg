SPECIFICATION TSpec
CONSTANT Home <- HomeC
CONSTRAINT Report
CHECK_DEADLOCK FALSE
