CONSTANTS
 Takers = {t1, t2}
 Pushes = 2
 MaxDelay = 2
 MaxT = 5
 CancelOn = {t1}
SPECIFICATION Spec
INVARIANTS Once NotEarly Rightly
PROPERTIES EverybodyEnds Delivered
CHECK_DEADLOCK FALSE
