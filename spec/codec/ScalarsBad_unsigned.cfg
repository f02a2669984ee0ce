CONSTANTS
  W = 6
  Broken = "unsigned"
SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
