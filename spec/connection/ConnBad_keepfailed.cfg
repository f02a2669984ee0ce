CONSTANTS
  Callers = {1, 2}
  Addrs = {"a"}
  MaxReq = 3
  Gen = FALSE
  Broken = "keepfailed"
SPECIFICATION Spec
VIEW View
INVARIANT OneDial
INVARIANT OpenWhileHeld
INVARIANT ClosedOnce
INVARIANT NoLeak
INVARIANT Fresh
INVARIANT Counted
CHECK_DEADLOCK FALSE
