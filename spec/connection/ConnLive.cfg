CONSTANTS
  Callers = {1, 2}
  Addrs = {"a", "b"}
  MaxReq = 3
  Gen = FALSE
  Broken = "no"
SPECIFICATION LiveSpec
PROPERTY Answered
CHECK_DEADLOCK FALSE
