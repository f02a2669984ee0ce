CONSTANTS
  MaxVals = 2
  TS = {0, 1, 2}
  Deltas <- DeltasDef
  Reps = {0, 1, 2}
  MaxEmit = 6
  Sync = TRUE
  Gen = FALSE
  Broken = "append"
SPECIFICATION Spec
INVARIANT Ordered
INVARIANT Steps
INVARIANT Repeats
INVARIANT SyncLate
CHECK_DEADLOCK FALSE
