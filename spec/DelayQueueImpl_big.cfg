CONSTANTS
 Takers = {t1, t2}
 Pushes = 3
 MaxDelay = 2
 MaxT = 4
 CancelOn = {t1}
SPECIFICATION Spec
INVARIANTS Once NotEarly Rightly
PROPERTIES EverybodyEnds Delivered
CHECK_DEADLOCK FALSE
