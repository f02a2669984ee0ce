CONSTANTS
  Gen = TRUE
  MaxEl = 1
  MaxOld = 1
  Broken = ""
SPECIFICATION Spec
INVARIANT IsOne
INVARIANT Rejects
INVARIANT Meets
CHECK_DEADLOCK FALSE
