CONSTANTS
  Names = {"a", "b"}
  Reqs = {"r", "s"}
  Cs = {1, 2}
  Qs = {1, 2}
  Depth = 2
  Bad = TRUE
  Gen = FALSE
  Broken = "no"
SPECIFICATION Spec
VIEW VW
INVARIANT Replayed
INVARIANT Exact
INVARIANT Monotone
CHECK_DEADLOCK FALSE
