CONSTANTS
  W = 4
  Broken = ""
SPECIFICATION Spec
INVARIANT InRange
INVARIANT NoPanic
CHECK_DEADLOCK FALSE
