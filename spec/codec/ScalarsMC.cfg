CONSTANTS
  W = 6
  Broken = ""
SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
