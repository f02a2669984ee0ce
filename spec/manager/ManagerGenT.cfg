CONSTANTS
  MaxEnv = 9
  Gen = TRUE
  Broken = "no"
SPECIFICATION Spec
PROPERTY Silence
PROPERTY Disciplined
PROPERTY FreshAttempt
CHECK_DEADLOCK FALSE
