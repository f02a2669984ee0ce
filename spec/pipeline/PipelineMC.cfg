CONSTANTS
 L = {1,2}
 V = {1,2}
 Streams = {"s1"}
 Polls = {"p1"}
 MaxMsg = 3
 MaxDrop = 1
 Broken = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Faithful
