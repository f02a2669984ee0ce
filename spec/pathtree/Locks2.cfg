SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Calls <- AllCalls
  Recheck = TRUE
  KeepLocks = TRUE
  DelLocks = TRUE
INVARIANTS Linear LockOK Represents
