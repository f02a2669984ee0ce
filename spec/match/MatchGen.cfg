CONSTANTS
  Clients = {1, 2}
  Elems = {"a", "b", "*"}
  MaxLen = 2
  MaxReg = 2
  Gen = TRUE
  Broken = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Filter
INVARIANT QueryStreamed
INVARIANT Minimal
CHECK_DEADLOCK FALSE
