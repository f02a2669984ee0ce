CONSTANTS
  Clients = {1, 2}
  Elems = {"a", "b", "*"}
  MaxLen = 2
  MaxReg = 4
  Gen = FALSE
  Broken = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Filter
INVARIANT QueryStreamed
INVARIANT Minimal
CHECK_DEADLOCK FALSE
