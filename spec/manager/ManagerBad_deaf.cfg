CONSTANTS
  MaxEnv = 0
  Gen = FALSE
  Broken = "deaf"
SPECIFICATION Live
PROPERTY RemoveEnds
PROPERTY Retried
CHECK_DEADLOCK FALSE
