SPECIFICATION Spec
CONSTANTS Closers = {1}
 MaxAtt = 3
 MaxMsg = 2
 Reconnecting = TRUE
 Cancels = FALSE
 Variant = "noctx"
 GenLen = 0
INVARIANTS TypeOK Callbacks Late ConnFirst Persistent
PROPERTIES CloseEnds SubEnds Retries
CHECK_DEADLOCK FALSE
