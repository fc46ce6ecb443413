SPECIFICATION TSpec
CONSTANT Size <- SizeC
CONSTRAINT Report
CHECK_DEADLOCK FALSE
