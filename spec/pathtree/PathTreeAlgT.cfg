SPECIFICATION Spec
CONSTANTS
  Elems = {2, 3}
  MaxLen = 3
  QLen = 3
  Vals = {1}
  MaxHist = 4
  Gen = FALSE
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS InvPrefixFree InvQuery InvDelete InvAdd InvLex
