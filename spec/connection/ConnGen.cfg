CONSTANTS
  Callers = {1, 2}
  Addrs = {"a", "b"}
  MaxReq = 3
  Gen = TRUE
  Broken = "no"
SPECIFICATION Spec
VIEW View
INVARIANT OneDial
INVARIANT OpenWhileHeld
INVARIANT ClosedOnce
INVARIANT NoLeak
INVARIANT Fresh
INVARIANT Counted
CHECK_DEADLOCK FALSE
