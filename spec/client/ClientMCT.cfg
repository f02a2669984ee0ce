SPECIFICATION Spec
CONSTANTS Closers = {1, 2, 3}
 MaxAtt = 7
 MaxMsg = 4
 Reconnecting = TRUE
 Cancels = TRUE
 Variant = "ok"
 GenLen = 0
INVARIANTS TypeOK Callbacks Late ConnFirst Persistent
PROPERTIES CloseEnds SubEnds Retries
CHECK_DEADLOCK FALSE
