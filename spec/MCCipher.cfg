SPECIFICATION Spec
CONSTANTS
  B = 2
  KeySizes <- SizesC
VIEW View
INVARIANT Injective
PROPERTY RoundTrip
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
