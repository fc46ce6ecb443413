SPECIFICATION TSpec
CONSTANT Maps <- MapsC
CONSTRAINT Report
CHECK_DEADLOCK FALSE
