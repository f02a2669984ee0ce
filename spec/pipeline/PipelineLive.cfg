CONSTANTS
 L = {1,2}
 V = {1,2}
 Streams = {"s1"}
 Polls = {"p1"}
 MaxMsg = 2
 MaxDrop = 1
 Broken = ""
SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
PROPERTY Settles
