CONSTANTS
  Paths = {"a","b"}
  Start = {"a"}
  MaxOps = 3
  Subs = {s1}
  Mode = "stream"
  Polls = 0
  Allowed = {"a","b"}
  StallOK = FALSE
  RegFirst = FALSE
  WriteFirst = TRUE
  AtomicVisit = TRUE
  Live = TRUE
  Coalesce = TRUE
  FilterAll = TRUE
  Drain = TRUE
  Unbounded = TRUE
  s1 = s1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Converges ConvergesUpdates OneSync SyncIsSent SnapshotFirst UpdatesOnlySyncFirst HeldValues NoLeak OnceEnds Backlog DupExact NeverWaits
