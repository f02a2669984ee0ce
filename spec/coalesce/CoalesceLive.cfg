SPECIFICATION FairSpec
CONSTANTS
  Producers = {1, 2}
  Items = {1, 2}
  MaxIns = 3
  TokenFirst = FALSE
  Drain = TRUE
INVARIANTS Conservation OnePending NoLoss NoLostWakeup
PROPERTY Woken
CHECK_DEADLOCK FALSE
