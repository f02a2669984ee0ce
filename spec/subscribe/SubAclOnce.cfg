CONSTANTS
  Paths = {"a","b"}
  Start = {"a"}
  MaxOps = 4
  Subs = {s1}
  Mode = "once"
  Polls = 0
  Allowed = {"b"}
  StallOK = FALSE
  RegFirst = TRUE
  WriteFirst = TRUE
  AtomicVisit = TRUE
  Live = TRUE
  Coalesce = TRUE
  FilterAll = TRUE
  Drain = TRUE
  Unbounded = TRUE
  s1 = s1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Converges ConvergesUpdates OneSync SyncIsSent SnapshotFirst UpdatesOnlySyncFirst HeldValues NoLeak OnceEnds Backlog DupExact NeverWaits
