CONSTANTS
  Gen = FALSE
  MaxEl = 1
  MaxOld = 1
  Broken = "both"
SPECIFICATION Spec
INVARIANT IsOne
INVARIANT Rejects
INVARIANT Meets
CHECK_DEADLOCK FALSE
