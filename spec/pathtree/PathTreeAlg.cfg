SPECIFICATION Spec
CONSTANTS
  Elems = {2, 3}
  MaxLen = 2
  QLen = 3
  Vals = {1, 2}
  MaxHist = 20
  Gen = FALSE
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS InvPrefixFree InvQuery InvDelete InvAdd InvLex
