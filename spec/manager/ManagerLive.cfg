CONSTANTS
  MaxEnv = 0
  Gen = FALSE
  Broken = "no"
SPECIFICATION Live
PROPERTY RemoveEnds
PROPERTY Retried
CHECK_DEADLOCK FALSE
