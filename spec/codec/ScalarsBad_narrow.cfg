CONSTANTS
  W = 6
  Broken = "narrow"
SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
