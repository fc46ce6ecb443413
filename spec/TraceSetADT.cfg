SPECIFICATION TSpec
CONSTANTS
  Objs = {1, 2}
  Dom = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
