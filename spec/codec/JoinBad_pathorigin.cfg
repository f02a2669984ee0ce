CONSTANTS
  Gen = FALSE
  MaxEl = 1
  MaxOld = 1
  Broken = "pathorigin"
SPECIFICATION Spec
INVARIANT IsOne
INVARIANT Rejects
INVARIANT Meets
CHECK_DEADLOCK FALSE
