CONSTANTS
 Cap = 4
 Slots = 4
 Total = 12
 Batch = 5
SPECIFICATION Spec
INVARIANTS InOrder Level Kept Apart
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
