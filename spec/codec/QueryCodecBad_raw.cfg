CONSTANTS
  Chars = {97, 47, 92, 32, 61, 42, 91, 93}
  MaxLen = 2
  MaxEl = 3
  Gen = FALSE
  Route = "raw"
SPECIFICATION Spec
INVARIANT Faithful
CHECK_DEADLOCK FALSE
