CONSTANTS
  Chars = {97, 47, 92, 32, 61, 42, 46}
  MaxLen = 3
  MaxEl = 2
  Gen = TRUE
  Route = "real"
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT TextFaithful
INVARIANT KeyedOK
CHECK_DEADLOCK FALSE
