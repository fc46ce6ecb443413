SPECIFICATION TSpec
CONSTANT Lists = {1, 2}
CONSTRAINT Report
INVARIANTS TypeOK OneOwner NoDup
CHECK_DEADLOCK FALSE
