SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Maps <- MapsC
INVARIANTS UrlShape SuffixShape CutShape HomeShape
CHECK_DEADLOCK FALSE
