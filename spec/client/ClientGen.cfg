INIT Init
NEXT Next
CONSTANTS Closers = {1}
 MaxAtt = 3
 MaxMsg = 2
 Reconnecting = TRUE
 Cancels = TRUE
 Variant = "ok"
 GenLen = 7
INVARIANTS TypeOK Callbacks Late ConnFirst Persistent
INVARIANT Gen
CHECK_DEADLOCK FALSE
