CONSTANTS
  MaxEnv = 12
  Gen = FALSE
  Broken = "no"
SPECIFICATION Spec
VIEW View
PROPERTY Silence
PROPERTY Disciplined
PROPERTY FreshAttempt
CHECK_DEADLOCK FALSE
