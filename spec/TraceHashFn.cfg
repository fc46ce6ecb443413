SPECIFICATION TSpec
CONSTANT Objs = {1, 2}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
