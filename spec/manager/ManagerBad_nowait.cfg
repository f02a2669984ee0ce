CONSTANTS
  MaxEnv = 9
  Gen = FALSE
  Broken = "nowait"
SPECIFICATION Spec
VIEW View
PROPERTY Silence
PROPERTY Disciplined
PROPERTY FreshAttempt
CHECK_DEADLOCK FALSE
