SPECIFICATION Spec
CONSTANTS
  Items = {1, 2, 3}
  MaxHist = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
