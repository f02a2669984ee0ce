CONSTANTS
  Paths = {"a","b"}
  Start = {"a"}
  MaxOps = 2
  Subs = {s1,s2}
  Mode = "stream"
  Polls = 0
  Allowed = {"a","b"}
  StallOK = TRUE
  RegFirst = TRUE
  WriteFirst = TRUE
  AtomicVisit = TRUE
  Live = TRUE
  Coalesce = TRUE
  FilterAll = TRUE
  Drain = TRUE
  Unbounded = TRUE
  s2 = s2
  s1 = s1
SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
INVARIANTS Converges ConvergesUpdates OneSync SyncIsSent SnapshotFirst UpdatesOnlySyncFirst HeldValues NoLeak OnceEnds Backlog DupExact NeverWaits
PROPERTY WriterDone
