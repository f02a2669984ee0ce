CONSTANTS
  MaxVals = 3
  TS = {0, 1, 2}
  Deltas <- DeltasDef
  Reps = {0, 1, 2}
  MaxEmit = 6
  Sync = TRUE
  Gen = TRUE
  Broken = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
