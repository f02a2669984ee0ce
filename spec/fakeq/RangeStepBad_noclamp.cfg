CONSTANTS
  W = 4
  Broken = "noclamp"
SPECIFICATION Spec
INVARIANT InRange
INVARIANT NoPanic
CHECK_DEADLOCK FALSE
