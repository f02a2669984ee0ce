CONSTANTS
  Gen = FALSE
  Depth = 2
  Broken = "text"
SPECIFICATION Spec
INVARIANT InvSymmetric
INVARIANT InvSound
INVARIANT InvComplete
INVARIANT InvTransitive
CHECK_DEADLOCK FALSE
