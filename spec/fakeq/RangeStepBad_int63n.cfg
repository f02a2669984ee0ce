CONSTANTS
  W = 4
  Broken = "int63n"
SPECIFICATION Spec
INVARIANT InRange
INVARIANT NoPanic
CHECK_DEADLOCK FALSE
