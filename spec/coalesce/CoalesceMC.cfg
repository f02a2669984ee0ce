SPECIFICATION Spec
CONSTANTS
  Producers = {1, 2}
  Items = {1, 2}
  MaxIns = 4
  TokenFirst = FALSE
  Drain = TRUE
INVARIANTS Conservation OnePending NoLoss NoLostWakeup

VIEW View
CHECK_DEADLOCK FALSE
