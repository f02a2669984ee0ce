SPECIFICATION Spec
CONSTANTS Closers = {1, 2}
 MaxAtt = 1
 MaxMsg = 5
 Reconnecting = FALSE
 Cancels = TRUE
 Variant = "ok"
 GenLen = 0
INVARIANTS TypeOK Callbacks Late ConnFirst Persistent
PROPERTIES CloseEnds SubEnds Retries
CHECK_DEADLOCK FALSE
