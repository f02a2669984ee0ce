SPECIFICATION Spec
CONSTANTS
  Targets = {"t"}
  Elems = {"a", "b"}
  MaxLen = 2
  Times = {1, 2}
  Vals = {1}
  Thr = 0
  ED = TRUE
  MaxOps = 3
  Gen = TRUE
  Mode = "atomic"
VIEW VView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
