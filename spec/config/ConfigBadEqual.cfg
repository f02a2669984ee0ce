CONSTANTS
  Names = {"a", "b"}
  Reqs = {"r", "s"}
  Cs = {1}
  Qs = {1, 2}
  Depth = 2
  Bad = FALSE
  Gen = FALSE
  Broken = "equal"
SPECIFICATION Spec
VIEW VW
INVARIANT Replayed
INVARIANT Exact
INVARIANT Monotone
CHECK_DEADLOCK FALSE
