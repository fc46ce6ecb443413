SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Vals = {1}
  Links = TRUE
  Most = 3
  Size <- SizeC
VIEW View
INVARIANT Tree
PROPERTIES Moves Copies Deletes
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
