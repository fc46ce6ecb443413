SPECIFICATION Spec
CONSTANTS
  MaxSize = 3000
  MaxK = 20
INVARIANTS SizeMet RoundMet
CHECK_DEADLOCK FALSE
