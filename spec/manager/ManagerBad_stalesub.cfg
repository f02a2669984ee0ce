CONSTANTS
  MaxEnv = 9
  Gen = FALSE
  Broken = "stalesub"
SPECIFICATION Spec
VIEW View
PROPERTY Silence
PROPERTY Disciplined
PROPERTY FreshAttempt
CHECK_DEADLOCK FALSE
