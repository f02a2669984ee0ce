CONSTANTS
  Gen = FALSE
  Depth = 2
  Broken = "prefix"
SPECIFICATION Spec
INVARIANT InvSymmetric
INVARIANT InvSound
INVARIANT InvComplete
INVARIANT InvTransitive
CHECK_DEADLOCK FALSE
