CONSTANTS
  W = 6
  Broken = "viaint"
SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
