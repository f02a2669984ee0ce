CONSTANTS
  Chars = {97, 47, 92, 32, 61, 42, 91, 93}
  MaxLen = 3
  MaxEl = 2
  Gen = FALSE
  Route = "real"
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT TextFaithful
INVARIANT KeyedOK
CHECK_DEADLOCK FALSE
