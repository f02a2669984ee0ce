CONSTANTS
  Names = {"a", "b"}
  Reqs = {"r", "s"}
  Cs = {1}
  Qs = {1, 2}
  Depth = 2
  Bad = FALSE
  Gen = TRUE
  Broken = "no"
SPECIFICATION Spec
VIEW VWG
INVARIANT Replayed
INVARIANT Exact
INVARIANT Monotone
CHECK_DEADLOCK FALSE
