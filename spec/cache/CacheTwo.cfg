SPECIFICATION Spec
CONSTANTS
  Targets = {"t", "u"}
  Elems = {"a"}
  MaxLen = 2
  Times = {1, 2}
  Vals = {1, 2}
  Thr = 0
  ED = FALSE
  MaxOps = 4
  Gen = FALSE
  Mode = "atomic"
VIEW VView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS FeedReproduces PrefixFree Newest Counts Latest
PROPERTIES Isolated NoFuture DeleteExact
