SPECIFICATION Spec
CONSTANTS
  Targets = {"t"}
  Elems = {"a"}
  MaxLen = 1
  Times = {1, 2, 4, 5, 8}
  Vals = {1}
  Thr = 2
  ED = TRUE
  MaxOps = 5
  Gen = TRUE
  Mode = "single"
VIEW VView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
