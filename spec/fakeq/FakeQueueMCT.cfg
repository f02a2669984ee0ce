CONSTANTS
  MaxVals = 3
  TS = {0, 1, 2}
  Deltas <- DeltasDef
  Reps = {0, 1, 2}
  MaxEmit = 9
  Sync = TRUE
  Gen = FALSE
  Broken = ""
SPECIFICATION Spec
INVARIANT Ordered
INVARIANT Steps
INVARIANT Repeats
INVARIANT SyncLate
INVARIANT Sorted
INVARIANT Turns
CHECK_DEADLOCK FALSE
