CONSTANTS
  W = 4
  Broken = "clamplow"
SPECIFICATION Spec
INVARIANT InRange
INVARIANT NoPanic
CHECK_DEADLOCK FALSE
