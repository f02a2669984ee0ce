CONSTANTS
  Callers = {1, 2, 3}
  Addrs = {"a", "b"}
  MaxReq = 4
  Gen = FALSE
  Broken = "no"
SPECIFICATION Spec
VIEW View
INVARIANT OneDial
INVARIANT OpenWhileHeld
INVARIANT ClosedOnce
INVARIANT NoLeak
INVARIANT Fresh
INVARIANT Counted
CHECK_DEADLOCK FALSE
