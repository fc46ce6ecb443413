CONSTANTS
 Cap = 3
 Slots = 3
 Total = 7
 Batch = 4
SPECIFICATION Spec
INVARIANTS InOrder Level Kept Apart
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
