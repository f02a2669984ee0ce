SPECIFICATION Spec
CONSTANTS
  Targets = {"t", "u"}
  Elems = {"a"}
  MaxLen = 1
  Times = {1, 2}
  Vals = {1}
  Thr = 0
  ED = TRUE
  MaxOps = 4
  Gen = TRUE
  Mode = "atomic"
VIEW VView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
