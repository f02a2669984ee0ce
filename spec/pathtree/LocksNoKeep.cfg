SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Calls <- AllCalls
  Recheck = TRUE
  KeepLocks = FALSE
  DelLocks = TRUE
INVARIANTS Linear LockOK Represents
