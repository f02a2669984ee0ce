SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Calls <- SmallCalls
  Recheck = TRUE
  KeepLocks = TRUE
  DelLocks = TRUE
INVARIANTS Linear LockOK Represents
