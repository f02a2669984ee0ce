SPECIFICATION Spec
CONSTANTS
  Targets = {"t"}
  Elems = {"a", "b"}
  MaxLen = 2
  Times = {1, 2, 3}
  Vals = {1, 2}
  Thr = 0
  ED = TRUE
  MaxOps = 5
  Gen = FALSE
  Mode = "atomic"
VIEW VView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS FeedReproduces PrefixFree Newest Counts Latest
PROPERTIES Isolated NoFuture DeleteExact
