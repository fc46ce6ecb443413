SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS SiteMet PathMet
CHECK_DEADLOCK FALSE
