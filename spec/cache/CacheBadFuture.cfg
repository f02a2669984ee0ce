SPECIFICATION Spec
CONSTANTS
  Targets = {"t"}
  Elems = {"a", "b"}
  MaxLen = 1
  Times = {1, 2, 4, 5, 8}
  Vals = {1}
  Thr = 2
  ED = TRUE
  MaxOps = 5
  Gen = FALSE
  Mode = "single"
  Class <- BadClass
VIEW VView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS FeedReproduces PrefixFree Newest Counts Latest
PROPERTIES Isolated NoFuture DeleteExact
