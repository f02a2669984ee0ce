CONSTANTS
  Clients = {1, 2}
  Elems = {"a", "*"}
  MaxLen = 2
  MaxReg = 2
  Gen = FALSE
  Broken = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Filter
INVARIANT QueryStreamed
INVARIANT Minimal
CHECK_DEADLOCK FALSE
